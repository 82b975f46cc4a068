"""contracts of crystal.c (C11): the message stream is split exactly: every message kept or sent, once, whole, in order.
Message k occupies words g k .. g (k+1)-1 of the stream: target, source, length, words."""
UM='4294967295'
PRE=r'''
  predicate go int
  axiom go_: forall m. go m
  function rsv (va bytes: int) : int   (* the address the reserve operation answers with *)
  predicate kept (h: map int int) (g: int -> int) (lim hi k: int) = if hi <> 0 then h[g k] < lim else h[g k] >= lim
  function klen (h: map int int) (g: int -> int) (lim hi k: int) : int
  axiom klen_0: forall h g lim hi k. k <= 0 -> klen h g lim hi k = 0
  axiom klen_1: forall h g lim hi k [klen h g lim hi k, go k]. k > 0 -> klen h g lim hi k = klen h g lim hi (k-1) + (if kept h g lim hi (k-1) then g k - g (k-1) else 0)
  function slen (h: map int int) (g: int -> int) (lim hi k: int) : int
  axiom slen_0: forall h g lim hi k. k <= 0 -> slen h g lim hi k = 0
  axiom slen_1: forall h g lim hi k [slen h g lim hi k, go k]. k > 0 -> slen h g lim hi k = slen h g lim hi (k-1) + (if kept h g lim hi (k-1) then 0 else g k - g (k-1))
  let rec ghost len_mono (h: map int int) (g: int -> int) (lim hi j k: int) requires { 0 <= j <= k } requires { forall i. 0<=i<k -> g i < g (i+1) }
    ensures { 0 <= klen h g lim hi j <= klen h g lim hi k /\ 0 <= slen h g lim hi j <= slen h g lim hi k /\ klen h g lim hi k + slen h g lim hi k = g k - g 0 } variant { k }
   = if k > j then begin len_mono h g lim hi j (k-1); assert { go k } end else if k > 0 then begin len_mono h g lim hi (j-1) (k-1); assert { go k } end
  let rec ghost len_all (h: map int int) (g: int -> int) (lim hi n: int) requires { 0 <= n } requires { forall i. 0<=i<n -> g i < g (i+1) }
    ensures { forall k. 0<=k<=n -> 0 <= klen h g lim hi k /\ 0 <= slen h g lim hi k /\ klen h g lim hi k + slen h g lim hi k = g k - g 0 }
    ensures { forall j k. 0<=j<=k<=n -> klen h g lim hi j <= klen h g lim hi k /\ slen h g lim hi j <= slen h g lim hi k } variant { n }
   = if n > 0 then len_all h g lim hi (n-1); len_mono h g lim hi 0 n;
     for k = 0 to n do invariant { forall j. 0<=j<k -> klen h g lim hi j <= klen h g lim hi n /\ slen h g lim hi j <= slen h g lim hi n } len_mono h g lim hi k n done
'''
EXT={'array_reserve_':dict(params=['va','min','size'],types=['struct array *','unsigned long','unsigned long'],take=[0,1,2],ret='void *',w={'array_ptr':'a=va','array_max':'a=va'},
   why='array_reserve_: contract proved for C14 (proof/c14.py); here only: the answer is the new block address, aligned for unsigned',
   ensures=['result=rsv va (min*size)','@array_ptr[va]=result','mod result 4=0'])}
D='(div @@array_ptr[sub_crystal_data p] 4)'; W='(div (rsv (sub_crystal_work p) (@@array_n[sub_crystal_data p]*4)) 4)'
D1=D.replace('@@','@'); W1=W.replace('@@','@')
K=lambda k,h='@@u32': f'klen {h} g cutoff send_hi {k}'
S=lambda k,h='@@u32': f'slen {h} g cutoff send_hi {k}'
KEPT=lambda k,h='@@u32': f'kept {h} g cutoff send_hi {k}'
PK=lambda k,d='D0': f'forall q. {d}+{K(k)}<=q<{d}+{K("("+k+"+1)")} -> @u32[q]=@@u32[g {k}+(q-({d}+{K(k)}))]'
PS=lambda k,w='W0': f'forall q. {w}+{S(k)}<=q<{w}+{S("("+k+"+1)")} -> @u32[q]=@@u32[g {k}+(q-({w}+{S(k)}))]'
LOOP=dict(inv=['0<=c<=ng','src=g c','end_=g ng',f'keep=D0+{K("c")}',f'send=W0+{S("c")}',f'forall k. 0<=k<c -> {KEPT("k")} -> {PK("k")}',f'forall k. 0<=k<c -> not {KEPT("k")} -> {PS("k")}','forall q. g c<=q<g ng -> @u32[q]=@@u32[q]'],var='ng-c')
ENT=['assert { g c<g ng }','assert { c<ng }','assert { g c+3<=g (c+1)<=g ng }','assert { go (c+1) }','assert { @u32[g c+2]=@@u32[g c+2] /\\ @u32[g c]=@@u32[g c] }','let ghost hb = @u32',f'assert {{ {K("c")}+{S("c")}=g c-g 0 }}',f'assert {{ forall k. 0<=k<c -> {K("(k+1)")}<={K("c")} /\\ {S("(k+1)")}<={S("c")} }}',f'assert {{ {K("(c+1)")}<={K("ng")} /\\ {S("(c+1)")}<={S("ng")} }}']
END=['assert { src+len=g (c+1) }',f'assert {{ forall q. q<D0+{K("c")} \\/ D0+{K("(c+1)")}<=q -> q<W0+{S("c")} \\/ W0+{S("(c+1)")}<=q -> @u32[q]=hb[q] }}',f'assert {{ forall k. 0<=k<c -> {KEPT("k")} -> {PK("k")} }}',f'assert {{ forall k. 0<=k<c -> not {KEPT("k")} -> {PS("k")} }}',f'assert {{ {KEPT("c")} -> {PK("c")} }}',f'assert {{ not {KEPT("c")} -> {PS("c")} }}',f'assert {{ forall k. k=c -> {KEPT("k")} -> {PK("k")} }}',f'assert {{ forall k. k=c -> not {KEPT("k")} -> {PS("k")} }}']
SPEC={
 'uintcpy':dict(requires=['dst+n<=src \\/ dst=src \\/ src<dst+n'],w={'u32':'dst<=a<dst+n'},r={'u32':'src<=a<src+n'},ensures=['forall q. dst<=q<dst+n -> @u32[q]=@@u32[src+(q-dst)]']),
 'crystal_move':dict(ghostparams='(ghost g: int -> int) (ghost ng: int)',
   requires=['mod @array_ptr[sub_crystal_data p] 4=0','sub_crystal_data p<>sub_crystal_work p','0<=@array_n[sub_crystal_data p]<='+UM,'0<=ng','g 0='+D1,f'g ng={D1}+@array_n[sub_crystal_data p]',
     'forall k. 0<=k<ng -> g (k+1)=g k+3+@u32[g k+2] /\\ 0<=@u32[g k+2] /\\ g k<g (k+1)<=g ng /\\ g 0<=g k',f'{W1}+@array_n[sub_crystal_data p]<={D1} \\/ {D1}+@array_n[sub_crystal_data p]<={W1}'],
   w={'u32':f'{D}<=a<{D}+@@array_n[sub_crystal_data p] \\/ {W}<=a<{W}+@@array_n[sub_crystal_data p]','array_n':'a=sub_crystal_data p','array_ptr':'a=sub_crystal_work p','array_max':'a=sub_crystal_work p'},
   ensures=[f'forall k. 0<=k<ng -> {KEPT("k")} -> {PK("k",D)}',f'forall k. 0<=k<ng -> not {KEPT("k")} -> {PS("k",W)}',f'@array_n[sub_crystal_data p]={K("ng")}',f'result={S("ng")}','@array_ptr[sub_crystal_work p]=rsv (sub_crystal_work p) (@@array_n[sub_crystal_data p]*4)'],
   loops={1:LOOP,2:LOOP},
   ghost={'entry':['let ghost D0 = '+D.replace('D','D'),'let ghost W0 = '+W,'let ghost ref c = 0','len_all h0_u32 g cutoff send_hi ng'],('before',2):['c <- 0'],('enter',1):ENT,('enter',2):ENT,('endbody',1):END,('endbody',2):END,('end',1):['c <- c+1'],('end',2):['c <- c+1']}),
}
def low(x):
    if isinstance(x,str): return x.replace('D0','d0').replace('W0','w0')
    if isinstance(x,list): return [low(y) for y in x]
    if isinstance(x,dict): return {a:low(b) for a,b in x.items()}
    return x
SPEC=low(SPEC)

# the schedule of the router: at every stage the processes bl..bl+n-1 pair up across the middle bh
RPRE='''
  function bh_ (bl n: int) : int = bl + E.div (n+1) 2
  function t0_ (bl n id: int) : int = n-1-(id-bl)+bl
  function tg_ (bl n id: int) : int = if t0_ bl n id = id then bh_ bl n else t0_ bl n id
'''
ANY='0<=result<='+UM
REX={'crystal_move':dict(params=['p','cutoff','send_hi'],types=['struct crystal *','unsigned int','int'],ret='unsigned int',why='crystal_move: contract proved separately above',
        requires=['cutoff=bh_ cbl cn','send_hi<>0 <-> @comm_id[sub_crystal_comm p]<cutoff'],ensures=['0<=result'],w={'u32':'true','array_n':'true','array_ptr':'true','array_max':'true'},r={'comm_id':'true'},ghostparams='(ghost cbl: int) (ghost cn: int)'),
     'crystal_exchange':dict(params=['p','send_n','targ','recvn','tag'],types=['struct crystal *','unsigned int','unsigned int','int','int'],ret='void',why='crystal_exchange: sends the work block to targ and appends what recvn processes send (targ and, for two, the previous one); bounded native check only',
        w={'u32':'true','array_n':'true','array_ptr':'true','array_max':'true'},ghostparams='(ghost cbl: int) (ghost cn: int)',
        requires=['let id=@comm_id[sub_crystal_comm p] in cbl<=id<cbl+cn','let id=@comm_id[sub_crystal_comm p] in targ=tg_ cbl cn id /\\ cbl<=targ<cbl+cn /\\ (id<bh_ cbl cn <-> targ>=bh_ cbl cn)',
           'let id=@comm_id[sub_crystal_comm p] in 0<=recvn<=2','let id=@comm_id[sub_crystal_comm p] in recvn=0 -> forall s. cbl<=s<cbl+cn -> tg_ cbl cn s<>id',
           'let id=@comm_id[sub_crystal_comm p] in recvn=1 -> forall s. cbl<=s<cbl+cn -> (tg_ cbl cn s=id <-> s=targ)','let id=@comm_id[sub_crystal_comm p] in recvn=2 -> targ<>id-1 /\\ forall s. cbl<=s<cbl+cn -> (tg_ cbl cn s=id <-> s=targ \\/ s=id-1)'],r={'comm_id':'true'}),
     'fprintf':dict(params=[],types=[],ret='int',take=[],why='fprintf, fflush: no effect on modelled memory'),'fflush':dict(params=[],types=[],ret='int',take=[],why='fprintf, fflush: no effect on modelled memory'),
     'MPI_Abort':dict(params=[],types=[],ret='int',take=[],why='MPI_Abort: does not return',ensures=['false'])}
RS={'gslib_crystal_router':dict(requires=['1<=@comm_np[sub_crystal_comm p]<=1073741823','0<=@comm_id[sub_crystal_comm p]<@comm_np[sub_crystal_comm p]'],w={'u32':'true','array_n':'true','array_ptr':'true','array_max':'true'},r={'comm_id':'true','comm_np':'true'},
   loops={1:dict(inv=['1<=n','0<=bl','bl<=id<bl+n','bl+n<=@comm_np[sub_crystal_comm p]','id=@comm_id[sub_crystal_comm p]','0<=tag','tag+2*n<=2*@comm_np[sub_crystal_comm p]'],var='n')},callghost={'crystal_move':'bl n','crystal_exchange':'bl n'},
   ensures=[])}
def units(): return [dict(file='src/crystal.c',specs=SPEC,prelude=PRE,extern=EXT),dict(file='src/crystal.c',name='crystal.c[router]',specs=RS,prelude=RPRE,extern=REX)]
