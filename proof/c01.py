"""contracts of the setup side of gs.c (C01, C02, C04, C05): index maps, message lists, router schedule"""
import re
UM='4294967295'
PRE=r'''
  predicate go int
  axiom go_: forall m. go m
  function mlc (bytes: int) : int   (* the address malloc answers with *)
  axiom mlc_al: forall b. mod (mlc b) 4 = 0
  (* chunk k: rows fr k .. fr (k+1)-1; it takes (length+1) words when it has at least two rows *)
  function po (fr: int -> int) (k: int) : int
  axiom po_0: forall fr k. k <= 0 -> po fr k = 0
  axiom po_1: forall fr k [po fr k, go k]. k > 0 -> po fr k = po fr (k-1) + (if fr k - fr (k-1) >= 2 then fr k - fr (k-1) + 1 else 0)
  let rec ghost po_all (fr: int -> int) (n: int) requires { 0 <= n } requires { forall k. 0<=k<n -> fr k < fr (k+1) }
    ensures { forall k. 0<=k<n -> po fr k + (if fr (k+1) - fr k >= 2 then fr (k+1) - fr k + 1 else 0) = po fr (k+1) }
    ensures { forall j k. 0<=j<=k<=n -> 0 <= po fr j <= po fr k } ensures { forall j k. 0<=j<k<=n -> fr j < fr k } variant { n }
    = if n > 0 then begin po_all fr (n-1); assert { go n }; assert { fr (n-1)<fr n by fr ((n-1)+1)=fr n } end
'''
MS='@u32[mem_size]=@@u32[mem_size]+4*count'
MLC=dict(params=['size'],types=['unsigned long'],take=[0],ret='void *',w={'u32':'mlc size<=4*a<mlc size+size'},why='smalloc: contract proved for C14; here: the answer is a block aligned for its element type, not part of any live object',ensures=['result=mlc size','mod result 4=0'])
EXT={'smalloc':MLC}
R='recp_nonzero_id @array_ptr[nz]'; N='@array_n[nz]'
def cond(s): return s
CH=['0<=ng','fr 0=0',f'fr ng={N}','forall k. 0<=k<ng -> 0<=fr k<fr (k+1)<=fr ng',
    f'forall k r. 0<=k<ng -> {R}+fr k<r<{R}+fr (k+1) -> @nonzero_id_id[r]=@nonzero_id_id[{R}+fr k] /\\ (ignore_flagged<>0 -> @nonzero_id_flag[r]=0)',
    f'forall k. 0<=k<ng -> fr (k+1)<{N} -> @nonzero_id_id[{R}+fr (k+1)]<>@nonzero_id_id[{R}+fr k] \\/ (ignore_flagged<>0 /\\ @nonzero_id_flag[{R}+fr (k+1)]<>0)']
M='div (mlc (4*(1+po fr ng))) 4'
def filled(ub,m): return [f'forall k. 0<=k<{ub} -> fr k+2<=fr (k+1) -> forall q. {m}+po fr k<=q<{m}+po fr k+(fr (k+1)-fr k) -> @u32[q]=@nonzero_id_i[{R}+fr k+(q-({m}+po fr k))]',
   f'forall k. 0<=k<{ub} -> fr k+2<=fr (k+1) -> @u32[{m}+po fr k+(fr (k+1)-fr k)]='+UM]
RO={h:f'{R}<=a<{R}+{N}' for h in('nonzero_id_id','nonzero_id_i','nonzero_id_flag','nonzero_id_primary')}
def cnt(): return dict(inv=['0<=c<=ng','row=rr+fr c','end_=rr+fr ng','count=1+po fr c'],var='ng-c')
def cnti(): return dict(inv=['row=rr+fr c','row_id=@nonzero_id_id[row]','rr+fr c+1<=other<=rr+fr (c+1)','any_=(if other=row+1 then 0 else 2)','count=1+po fr c+(other-row-1)'],var='rr+fr (c+1)-other')
def sett(): return dict(inv=['0<=c<=ng','row=rr+fr c','end_=rr+fr ng','p=m0+po fr c','map=m0',MS]+filled('c','m0'),var='ng-c')
def seti(): return dict(inv=['row=rr+fr c','row_id=@nonzero_id_id[row]','rr+fr c+1<=other<=rr+fr (c+1)','any_=(if other=row+1 then 0 else 1)','p=m0+po fr c+(other-row)',MS,'forall q. m0+po fr c<=q<p -> @u32[q]=@nonzero_id_i[row+(q-(m0+po fr c))]']+filled('c','m0'),var='rr+fr (c+1)-other')
ENT=['assert { fr c<fr ng }','assert { c<ng }','assert { fr c<fr (c+1)<=fr ng }','assert { po fr c<=po fr (c+1)<=po fr ng }']
def sfx(d,k): return dict(d,inv=[x.replace('row_id=','row_id__%d='%k).replace('any_=','any___%d='%k) for x in d['inv']]) if k>1 else d
LG={'entry':['let ghost rr = '+R,'let ghost m0 = '+M,'let ghost ref c = 0','po_all fr ng'],
    ('before',1):['c <- 0'],('before',3):['c <- 0'],('before',5):['c <- 0'],('before',7):['c <- 0'],('beforecall','smalloc',1):['assert { count=1+po fr ng }'],('aftercall','smalloc',1):['assert { mlc (4*(1+po fr ng))=4*m0 }']}
for k in(1,3,5,7): LG[('enter',k)]=ENT; LG[('end',k)]=['c <- c+1']
for k in(1,3): LG[('endbody',k)]=['assert { other=rr+fr (c+1) }']
for k in(5,7): LG[('endbody',k)]=['assert { other=rr+fr (c+1) }','assert { p=m0+po fr (c+1) }']+['assert { '+x+' }' for x in filled('c','m0')]+['assert { '+x.replace('0<=k<c','k=c')+' }' for x in filled('c','m0')]
SPEC={
 'local_map':dict(ghostparams='(ghost fr: int -> int) (ghost ng: int)',props=['C01','C02','C05'],requires=CH+['1+po fr ng<=1073741823',f'@u32[mem_size]+4*(1+po fr ng)<='+UM,f'mem_size<{M} \\/ {M}+1+po fr ng<=mem_size',f'{R}=rr0','forall r. rr0<=r<rr0+'+N+' -> 0<=@nonzero_id_i[r]<='+UM],
   w={'u32':f'a=mem_size \\/ {M}<=a<{M}+1+po fr ng'},r=dict(RO,array_ptr='a=nz',array_n='a=nz'),
   ensures=[f'result={M}']+filled('ng',M)+[f'@u32[{M}+po fr ng]='+UM,'@u32[mem_size]=@@u32[mem_size]+4*(1+po fr ng)'],
   loops={1:cnt(),2:cnti(),3:cnt(),4:sfx(cnti(),2),5:sett(),6:sfx(seti(),3),7:sett(),8:sfx(seti(),4)},ghost=LG),
}
SPEC['local_map']['requires']=[x for x in SPEC['local_map']['requires'] if 'rr0' not in x]

# primaries that are flagged
FP=r"""
  function fp (pi fl ii: map int int) (r k: int) : int   (* flagged primaries among the first k rows *)
  predicate fpp (pi fl ii: map int int) (q: int)
  axiom fpp_def: forall pi fl ii q [fpp pi fl ii q]. fpp pi fl ii q <-> ii[q]=pi[q] /\ fl[q]=1
  axiom fp_0: forall pi fl ii r k. k <= 0 -> fp pi fl ii r k = 0
  axiom fp_1: forall pi fl ii r k [fp pi fl ii r k, go k]. k > 0 -> fp pi fl ii r k = fp pi fl ii r (k-1) + (if fpp pi fl ii (r+k-1) then 1 else 0)
  let rec ghost fp_all (pi fl ii: map int int) (r n: int) requires { 0 <= n }
    ensures { forall k. 0<=k<n -> fp pi fl ii r (k+1) = fp pi fl ii r k + (if fpp pi fl ii (r+k) then 1 else 0) }
    ensures { forall j k. 0<=j<=k<=n -> 0 <= fp pi fl ii r j <= fp pi fl ii r k } ensures { fp pi fl ii r n <= n } variant { n }
    = if n > 0 then begin fp_all pi fl ii r (n-1); assert { go n } end
"""
FPH='@nonzero_id_primary @nonzero_id_flag @nonzero_id_i'
FPN=f'fp {FPH} ({R}) {N}'
def fpf(ub,m,rr): return f'forall q. {rr}<=q<{rr}+{ub} -> fpp {FPH} q -> @u32[{m}+fp {FPH} {rr} (q-{rr})]=@nonzero_id_i[q]'
MF=f'div (mlc (4*(1+{FPN}))) 4'
SPEC['flagged_primaries_map']=dict(prelude=FP,props=['C02','C05'],requires=[f'0<={N}',f'1+{N}<=1073741823',f'@u32[mem_size]+4*(1+{N})<='+UM,f'mem_size<{MF} \\/ {MF}+1+{FPN}<=mem_size'],
  w={'u32':f'a=mem_size \\/ {MF}<=a<{MF}+1+{FPN}'},r=dict(RO,array_ptr='a=nz',array_n='a=nz'),
  ensures=[f'result={MF}',fpf(N,'('+MF+')','('+R+')'),f'@u32[{MF}+{FPN}]='+UM,f'@u32[mem_size]=@@u32[mem_size]+4*(1+{FPN})'],
  loops={1:dict(inv=['rr<=row<=rr+n0','end_=rr+n0',f'count=1+fp {FPH} rr (row-rr)'],var='end_-row'),2:dict(inv=['rr<=row<=rr+n0','end_=rr+n0',f'p=m0+fp {FPH} rr (row-rr)','map=m0',MS,fpf('(row-rr)','m0','rr')],var='end_-row')},
  ghost={'entry':['let ghost rr = '+R,'let ghost n0 = '+N,'let ghost m0 = '+MF,f'fp_all {FPH} rr n0'],('aftercall','smalloc',1):['assert { mlc (4*count)=4*m0 }'],
    ('enter',1):[f'assert {{ fpp {FPH} row <-> @nonzero_id_i[row]=@nonzero_id_primary[row] /\\ @nonzero_id_flag[row]=1 }}',f'assert {{ fp {FPH} rr (row-rr+1)=fp {FPH} rr (row-rr)+(if fpp {FPH} row then 1 else 0) }}'],
    ('enter',2):[f'assert {{ fpp {FPH} row <-> @nonzero_id_i[row]=@nonzero_id_primary[row] /\\ @nonzero_id_flag[row]=1 }}',f'assert {{ fp {FPH} rr (row-rr+1)=fp {FPH} rr (row-rr)+(if fpp {FPH} row then 1 else 0) }}',f'assert {{ fp {FPH} rr (row-rr+1)<=fp {FPH} rr n0 }}'],
    ('endbody',2):['assert { '+fpf('(row-rr)','m0','rr')+' }','assert { '+fpf('(row-rr+1)','m0','rr').replace('rr<=q<rr+(row-rr+1)','q=row')+' }']})

# the distinct ids of a process: the primary entries
UP=r"""
  function fq (pi ii: map int int) (r k: int) : int   (* primaries among the first k rows *)
  axiom fq_0: forall pi ii r k. k <= 0 -> fq pi ii r k = 0
  axiom fq_1: forall pi ii r k [fq pi ii r k, go k]. k > 0 -> fq pi ii r k = fq pi ii r (k-1) + (if ii[r+k-1]=pi[r+k-1] then 1 else 0)
  let rec ghost fq_all (pi ii: map int int) (r n: int) requires { 0 <= n }
    ensures { forall k. 0<=k<n -> fq pi ii r (k+1) = fq pi ii r k + (if ii[r+k]=pi[r+k] then 1 else 0) }
    ensures { forall j k. 0<=j<=k<=n -> 0 <= fq pi ii r j <= fq pi ii r k } ensures { fq pi ii r n <= n } variant { n }
    = if n > 0 then begin fq_all pi ii r (n-1); assert { go n } end
"""
QH='@nonzero_id_primary @nonzero_id_i'
FQN=f'fq {QH} ({R}) {N}'
UB=f'recp_unique_id (mlc (24*0+16*{N}))'
def uq(ub,u,rr):
    w=f'({u}+fq {QH} {rr} (q-{rr}))'
    return [f'forall q. {rr}<=q<{rr}+{ub} -> @nonzero_id_i[q]=@nonzero_id_primary[q] -> @unique_id_id[{w}]=@nonzero_id_id[q] /\\ @unique_id_work_proc[{w}]=mod @nonzero_id_id[q] np /\\ @unique_id_src_if[{w}]=(if @nonzero_id_flag[q]<>0 then 4294967295-@nonzero_id_i[q] else @nonzero_id_i[q])']
UB=f'recp_unique_id (mlc ({N}*16))'
UW=f'{UB}<=a<{UB}+{FQN}'
SPEC['unique_ids']=dict(prelude=UP,props=['C01','C05'],requires=[f'0<={N}<=1073741823','1<=np','un<>nz','forall q. 0<=@nonzero_id_i[q]<='+UM,'forall q. 0<=@nonzero_id_id[q]<=18446744073709551615'],
  w={'u32':f'mlc ({N}*16)<=4*a<mlc ({N}*16)+{N}*16','unique_id_id':UW,'unique_id_work_proc':UW,'unique_id_src_if':UW,'array_n':'a=un','array_ptr':'a=un','array_max':'a=un'},r=dict(RO,array_ptr='a=nz',array_n='a=nz'),
  ensures=[f'@array_n[un]={FQN}',f'@array_ptr[un]=mlc ({N}*16)']+uq(N,'('+UB+')','('+R+')'),
  loops={1:dict(inv=['rr<=nz_row<=rr+n0','nz_end=rr+n0',f'un_row=u0+fq {QH} rr (nz_row-rr)','@array_ptr[un]=mlc (n0*16)']+uq('(nz_row-rr)','u0','rr'),var='nz_end-nz_row')},
  ghost={'entry':['let ghost rr = '+R,'let ghost n0 = '+N,'let ghost u0 = '+UB,f'fq_all {QH} rr n0'],('enter',1):[f'assert {{ fq {QH} rr (nz_row-rr+1)=fq {QH} rr (nz_row-rr)+(if @nonzero_id_i[nz_row]=@nonzero_id_primary[nz_row] then 1 else 0) }}',f'assert {{ fq {QH} rr (nz_row-rr+1)<=fq {QH} rr n0 }}'],
     ('endbody',1):['assert { '+x.replace('(nz_row-rr) ->','(nz_row-rr) -> true ->')+' }' for x in uq('(nz_row-rr)','u0','rr')]+['assert { '+x.replace('rr<=q<rr+(nz_row-rr)','q=nz_row')+' }' for x in uq('(nz_row-rr)','u0','rr')]})

# pairwise exchange: message lists and maps over the shared ids
import sortx
SHF={'id':(0,'ull'),'i':(8,'ui'),'p':(12,'ui'),'ri':(16,'ui'),'bi':(20,'ui'),'flags':(24,'ui')}
SH={'shared_id':(32,SHF,list(SHF))}
PEXT=dict(EXT,**sortx.ext(SH))
PP=PRE+r"""
  predicate inbuf (b a: int)   (* the words of a scratch buffer *)
  predicate blk (n a: int)     (* the words of the message list block: 2k words, k<=n *)
  axiom blk_def: forall n a. blk n a <-> exists k. 0<=k<=n /\ mlc ((2*k)*4)<=4*a<mlc ((2*k)*4)+(2*k)*4
  predicate un_ (fl: map int int) (mask q: int)      (* row q is not masked *)
  axiom un_def: forall fl mask q [un_ fl mask q]. un_ fl mask q <-> band fl[q] mask = 0
  function cu (fl: map int int) (mask r k: int) : int  (* unmasked rows among the first k *)
  axiom cu_0: forall fl mask r k. k <= 0 -> cu fl mask r k = 0
  axiom cu_1: forall fl mask r k [cu fl mask r k, go k]. k > 0 -> cu fl mask r k = cu fl mask r (k-1) + (if un_ fl mask (r+k-1) then 1 else 0)
  function lq (fl p: map int int) (mask r k: int) : int  (* processor of the last unmasked row among the first k *)
  axiom lq_0: forall fl p mask r k. k <= 0 -> lq fl p mask r k = 4294967295
  axiom lq_1: forall fl p mask r k [lq fl p mask r k, go k]. k > 0 -> lq fl p mask r k = if un_ fl mask (r+k-1) then p[r+k-1] else lq fl p mask r (k-1)
  function nm (fl p: map int int) (mask r k: int) : int  (* messages among the first k rows *)
  axiom nm_0: forall fl p mask r k. k <= 0 -> nm fl p mask r k = 0
  axiom nm_1: forall fl p mask r k [nm fl p mask r k, go k]. k > 0 -> nm fl p mask r k = nm fl p mask r (k-1) + (if un_ fl mask (r+k-1) && p[r+k-1] <> lq fl p mask r (k-1) then 1 else 0)
  predicate first_ (fl p: map int int) (mask r k: int)   (* row r+k starts a message *)
  axiom first_def: forall fl p mask r k [first_ fl p mask r k]. first_ fl p mask r k <-> un_ fl mask (r+k) /\ p[r+k] <> lq fl p mask r k
  let rec ghost cu_all (fl p: map int int) (mask r n: int) requires { 0 <= n }
    ensures { forall k. 0<=k<n -> cu fl mask r (k+1) = cu fl mask r k + (if un_ fl mask (r+k) then 1 else 0) }
    ensures { forall k. 0<=k<n -> lq fl p mask r (k+1) = if un_ fl mask (r+k) then p[r+k] else lq fl p mask r k }
    ensures { forall k. 0<=k<n -> nm fl p mask r (k+1) = nm fl p mask r k + (if first_ fl p mask r k then 1 else 0) }
    ensures { forall j k. 0<=j<=k<=n -> 0 <= cu fl mask r j <= cu fl mask r k } ensures { forall j k. 0<=j<=k<=n -> 0 <= nm fl p mask r j <= nm fl p mask r k }
    ensures { cu fl mask r n <= n /\ nm fl p mask r n <= cu fl mask r n } variant { n }
    = if n > 0 then begin cu_all fl p mask r (n-1); assert { go n } end
"""
RS='recp_shared_id @array_ptr[sh]'; NS='@array_n[sh]'
CU=lambda k: f'cu @shared_id_flags flags_mask rr {k}'
NM=lambda k: f'nm @shared_id_flags @shared_id_p flags_mask rr {k}'
LQ=lambda k: f'lq @shared_id_flags @shared_id_p flags_mask rr {k}'
FI=lambda k: f'first_ @shared_id_flags @shared_id_p flags_mask rr {k}'
UNM='un_ @shared_id_flags flags_mask '
def bis(ub): return f'forall q. rr<=q<rr+{ub} -> @shared_id_bi[q]=(if {UNM}q then {CU("(q-rr)")} else {UM})'
def plist(ub,P='pw0'): return f'forall k. 0<=k<{ub} -> {FI("k")} -> @u32[{P}+{NM("k")}]=@shared_id_p[rr+k]'
def slist(ub,P='pw0',nn=None): return f'forall j k. 0<=j<k<={ub} -> {FI("j")} -> {NM("k")}={NM("(j+1)")} -> (k=n0 \\/ {FI("k")}) -> @u32[{P}+nn+{NM("j")}]={CU("k")}-{CU("j")}'
FH=[f'shared_id_{f}' for f in SHF]
SW={h:f'{RS}<=a<{RS}+{NS}' for h in FH}
SW={h:f.replace('@array','@@array') for h,f in SW.items()}
MB='mlc ((2*nn)*4)'
def out(f): # post-state formula with the abbreviations expanded
    f=re.sub(r'\brr\b',f'({RS})'.replace('@','@@'),f); f=re.sub(r'\bn0\b',f'({NS})'.replace('@','@@'),f); f=f.replace('nn','@pw_comm_data_n[data]')
    return f
PWE=[f'assert {{ {UNM}s <-> band @shared_id_flags[s] flags_mask=0 }}',f'assert {{ {CU("(s-rr+1)")}={CU("(s-rr)")}+(if {UNM}s then 1 else 0) }}',f'assert {{ {LQ("(s-rr+1)")}=(if {UNM}s then @shared_id_p[s] else {LQ("(s-rr)")}) }}',f'assert {{ {FI("(s-rr)")} <-> {UNM}s /\\ @shared_id_p[s]<>{LQ("(s-rr)")} }}',f'assert {{ {NM("(s-rr+1)")}={NM("(s-rr)")}+(if {FI("(s-rr)")} then 1 else 0) }}']
PWS={'pw_comm_setup':dict(props=['C01','C02','C04'],
  requires=[f'0<={NS}<=536870911','mod @array_ptr[sh] 4=0 /\\ mod @array_ptr[sh] 8=0','buf<>sh',f'forall q. {RS}<=q<{RS}+{NS} -> 0<=@shared_id_p[q]<'+UM],
  w=dict(SW,u32=f'inbuf buf a \\/ blk {NS} a'.replace('@array','@@array'),srt='true',sri='true',array_ptr='a=buf',array_max='a=buf',array_n='a=buf',pw_comm_data_n='a=data',pw_comm_data_p='a=data',pw_comm_data_size='a=data',pw_comm_data_total='a=data'),
  callghost={'gslib_sortp_ui':'(@array_ptr[sh])','gslib_sortp_ull':'(@array_ptr[sh])'},
  ensures=[out(x) for x in [f'forall j k. rr<=j<=k<rr+n0 -> @shared_id_p[j]<=@shared_id_p[k]',f'forall j k. rr<=j<=k<rr+n0 -> @shared_id_p[j]=@shared_id_p[k] -> @shared_id_id[j]<=@shared_id_id[k]',
      bis('n0'),f'@pw_comm_data_n[data]={NM("n0")}',f'@pw_comm_data_total[data]={CU("n0")}','@pw_comm_data_size[data]=@pw_comm_data_p[data]+@pw_comm_data_n[data]',plist('n0','@pw_comm_data_p[data]'),slist('n0','@pw_comm_data_p[data]')]]+
     [f'forall q. {RS}<=q<{RS}+{NS} -> 0<=@srt[q-({RS})]<{NS} /\\ '+' /\\ '.join(f'@{h}[q]=@@{h}[{RS}+@srt[q-({RS})]]' for h in FH if h!='shared_id_bi'),f'forall k. 0<=k<{NS} -> 0<=@sri[k]<{NS} /\\ @srt[@sri[k]]=k'],
  loops={1:dict(inv=['rr<=s<=rr+n0','se=rr+n0','count='+CU('(s-rr)'),'n='+NM('(s-rr)'),'lp='+LQ('(s-rr)'),bis('(s-rr)'),'forall q. rr<=q<rr+n0 -> @shared_id_p[q]=pp[q]'],var='se-s'),
         2:dict(inv=['rr<=s<=rr+n0','se=rr+n0','n='+NM('(s-rr)'),'lp='+LQ('(s-rr)'),'n=0 -> lp=4294967295','n>0 -> 0<=g0<s-rr /\\ '+FI('g0')+' /\\ '+NM('(g0+1)')+'=n',f'n>0 -> count={CU("(s-rr)")}-{CU("g0")}',plist('(s-rr)'),
              f'forall j k. 0<=j<k<=g0 -> {FI("j")} -> {NM("k")}={NM("(j+1)")} -> {FI("k")} -> @u32[pw0+nn+{NM("j")}]={CU("k")}-{CU("j")}'],var='se-s')},
  ghost={'entry':['let ghost rr = '+RS,'let ghost n0 = '+NS],
   ('aftercall','gslib_sarray_permute_buf_',1):['cu_all @shared_id_flags @shared_id_p flags_mask rr n0'],
   ('aftercall','gslib_sortp_ull',1):['let ghost si1 = @sri',f'assert {{ forall x y. 0<=x<n0 -> 0<=y<n0 -> @sri[x]<=@sri[y] -> @shared_id_id[rr+x]<=@shared_id_id[rr+y] }}'],
   ('aftercall','gslib_sortp_ui',1):['assert { forall j k. 0<=j<=k<n0 -> @shared_id_p[rr+@srt[j]]=@shared_id_p[rr+@srt[k]] -> @shared_id_id[rr+@srt[j]]<=@shared_id_id[rr+@srt[k]] }'],
   'return':['assert { '+RS+'=rr /\\ '+NS+'=n0 }','assert { @pw_comm_data_p[data]=pw0 /\\ @pw_comm_data_n[data]=nn }']+['assert { '+plist('n0')+' }','assert { '+slist('n0')+' }']+['assert { '+out(x)+' }' for x in (plist('n0','@pw_comm_data_p[data]'),slist('n0','@pw_comm_data_p[data]'))],
   ('endbody',2):['assert { '+plist('(s-rr)')+' }','assert { '+plist('(s-rr+1)').replace('0<=k<','s-rr<=k<')+' }','assert { '+plist('(s-rr+1)')+' }'],
   ('before',1):['let ghost pp = @shared_id_p'],
   ('before',2):['let ghost ref g0 = 0'],
   ('aftercall','smalloc',1):['let ghost nn = n','let ghost pw0 = div (mlc ((2*n)*4)) 4',f'assert {{ forall a. mlc ((2*n)*4)<=4*a<mlc ((2*n)*4)+(2*n)*4 -> blk n0 a }}'],
   ('enter',1):PWE+[f'assert {{ {CU("(s-rr+1)")}<={CU("n0")} /\\ {NM("(s-rr+1)")}<={NM("n0")} }}'],('enter',2):PWE+[f'assert {{ {CU("(s-rr+1)")}<={CU("n0")} /\\ {NM("(s-rr+1)")}<={NM("n0")} }}',f'g0 <- (if pure {{ {FI("(s-rr)")} }} then s-rr else g0)'],
  })}

# the map from buffer positions to local elements: one chunk per local element, in the order of the elements
MP=r"""
  function li (bi ii: map int int) (r k: int) : int  (* element of the last used row among the first k, -1: none *)
  axiom li_0: forall bi ii r k. k <= 0 -> li bi ii r k = -1
  axiom li_1: forall bi ii r k [li bi ii r k, go k]. k > 0 -> li bi ii r k = if bi[r+k-1] <> 4294967295 then ii[r+k-1] else li bi ii r (k-1)
  predicate lead (bi ii: map int int) (r k: int)     (* row r+k opens a chunk *)
  axiom lead_def: forall bi ii r k [lead bi ii r k]. lead bi ii r k <-> bi[r+k] <> 4294967295 /\ ii[r+k] <> li bi ii r k
  function wp (bi ii: map int int) (r k: int) : int  (* words taken by the first k rows *)
  axiom wp_0: forall bi ii r k. k <= 0 -> wp bi ii r k = 0
  axiom wp_1: forall bi ii r k [wp bi ii r k, go k]. k > 0 -> wp bi ii r k = wp bi ii r (k-1) + (if bi[r+k-1] = 4294967295 then 0 else if lead bi ii r (k-1) then 3 else 1)
  let rec ghost wp_all (bi ii: map int int) (r n: int) requires { 0 <= n }
    ensures { forall k. 0<=k<n -> li bi ii r (k+1) = if bi[r+k] <> 4294967295 then ii[r+k] else li bi ii r k }
    ensures { forall k. 0<=k<n -> wp bi ii r (k+1) = wp bi ii r k + (if bi[r+k] = 4294967295 then 0 else if lead bi ii r k then 3 else 1) }
    ensures { forall j k. 0<=j<=k<=n -> 0 <= wp bi ii r j <= wp bi ii r k } ensures { wp bi ii r n <= 3*n } variant { n }
    = if n > 0 then begin wp_all bi ii r (n-1); assert { go n } end
"""
WH='@shared_id_bi @shared_id_i'
LI=lambda k: f'li {WH} rr {k}'
WP=lambda k: f'wp {WH} rr {k}'
LE=lambda k: f'lead {WH} rr {k}'
USD=lambda q: f'@shared_id_bi[{q}]<>{UM}'
def mrows(ub,P): return [f'forall k. 0<=k<{ub} -> {LE("k")} -> @u32[{P}+{WP("k")}]=@shared_id_i[rr+k] /\\ @u32[{P}+{WP("k")}+1]=@shared_id_bi[rr+k]',
   f'forall k. 0<=k<{ub} -> {USD("(rr+k)")} -> not {LE("k")} -> @u32[{P}+{WP("k")}-1]=@shared_id_bi[rr+k]']
def mends(ub,P,last): return [f'forall k. 0<=k<{ub} -> {LE("k")} -> {WP("k")}>0 -> @u32[{P}+{WP("k")}-1]={UM}']
def out2(f): return re.sub(r'\bn0\b',f'({NS})'.replace('@','@@'),re.sub(r'\brr\b',f'({RS})'.replace('@','@@'),f))
MPQ='div (mlc ((1+'+WP('n0')+')*4)) 4'
STEP=[f'assert {{ {LI("(s-rr+1)")}=(if {USD("s")} then @shared_id_i[s] else {LI("(s-rr)")}) }}',f'assert {{ {LE("(s-rr)")} <-> {USD("s")} /\\ @shared_id_i[s]<>{LI("(s-rr)")} }}',f'assert {{ {WP("(s-rr+1)")}={WP("(s-rr)")}+(if @shared_id_bi[s]={UM} then 0 else if {LE("(s-rr)")} then 3 else 1) }}',f'assert {{ {WP("(s-rr+1)")}<={WP("n0")} }}']
BASE=['rr<=s<=rr+n0','se=rr+n0']
NEXT=f's<se -> {LI("(s-rr)")}<@shared_id_i[s]'
KEEP=['@u32[mem_size]=@@u32[mem_size]+4*(1+'+WP('n0')+')']
SW2=dict(SW)
PWS['pw_map_setup']=dict(prelude=MP,props=['C01','C02','C04'],
  requires=[f'0<={NS}<=268435455','mod @array_ptr[sh] 4=0','buf<>sh',f'@u32[mem_size]+4*(1+3*{NS})<='+UM,f'forall b a. 0<=b<=4*(1+3*{NS}) -> mlc b<=4*a<mlc b+b -> a<>mem_size','not inbuf buf mem_size',f'forall q. 0<=@shared_id_i[q]'],
  w=dict(SW,u32=f'inbuf buf a \\/ a=mem_size \\/ blkm {NS} a'.replace('@array','@@array'),srt='true',sri='true',array_ptr='a=buf',array_max='a=buf',array_n='a=buf'),
  callghost={'gslib_sortp_ui':'(@array_ptr[sh])'},
  ensures=[out2(x) for x in ['forall j k. rr<=j<=k<rr+n0 -> @shared_id_i[j]<=@shared_id_i[k]','result='+MPQ,*mrows('n0','result'),*mends('n0','result',0),f'{WP("n0")}>0 -> @u32[result+{WP("n0")}-1]={UM}',f'@u32[result+{WP("n0")}]={UM}']+KEEP]
    +[f'forall q. {RS}<=q<{RS}+{NS} -> 0<=@srt[q-({RS})]<{NS} /\\ '+' /\\ '.join(f'@{h}[q]=@@{h}[{RS}+@srt[q-({RS})]]' for h in FH),f'forall k. 0<=k<{NS} -> 0<=@sri[k]<{NS} /\\ @srt[@sri[k]]=k'],
  loops={1:dict(inv=BASE+['count=1+'+WP('(s-rr)'),NEXT],var='se-s'),2:dict(inv=BASE+['s>rr','count=1+'+WP('(s-rr)'),LI('(s-rr)')+'=i',f'i<=@shared_id_i[s] \\/ s=se'],var='se-s'),
     3:dict(inv=BASE+['map=m0','p=m0+'+WP('(s-rr)'),NEXT]+mrows('(s-rr)','m0')+mends('(s-rr)','m0',0)+[f'{WP("(s-rr)")}>0 -> @u32[m0+{WP("(s-rr)")}-1]={UM}']+KEEP,var='se-s'),
     4:dict(inv=BASE+['s>rr','map=m0','p=m0+'+WP('(s-rr)')+'-1',WP('(s-rr)')+'>=1',LI('(s-rr)')+'=i__2',f'i__2<=@shared_id_i[s] \\/ s=se']+mrows('(s-rr)','m0')+mends('(s-rr)','m0',0)+KEEP,var='se-s')},
  ghost={'entry':['let ghost rr = '+RS,'let ghost n0 = '+NS],
   ('aftercall','gslib_sarray_permute_buf_',1):[f'wp_all {WH} rr n0','assert { forall j k. rr<=j<=k<rr+n0 -> @shared_id_i[j]<=@shared_id_i[k] }'],
   ('aftercall','smalloc',1):['let ghost m0 = '+MPQ,f'assert {{ forall a. mlc ((1+{WP("n0")})*4)<=4*a<mlc ((1+{WP("n0")})*4)+(1+{WP("n0")})*4 -> blkm n0 a }}',f'assert {{ forall a. m0<=a<=m0+{WP("n0")} -> a<>mem_size /\\ blkm n0 a }}'],
   ('beforecall','smalloc',1):['assert { count=1+'+WP('n0')+' }'],
   ('enter',1):STEP,('enter',2):STEP,('enter',3):STEP+[f'assert {{ {USD("s")} -> {LE("(s-rr)")} /\\ m0<=p /\\ p+2<=m0+{WP("n0")} }}','assert { forall a. p<=a<=p+2 -> m0<=a<=m0+'+WP('n0')+' -> a<>mem_size /\\ blkm n0 a }'],('enter',4):STEP+[f'assert {{ {USD("s")} -> p<=m0+{WP("n0")} -> m0<=p -> p<>mem_size /\\ blkm n0 p }}'],
   ('endbody',4):['assert { '+x+' }' for x in mrows('(s-rr)','m0')]+['assert { '+x.replace('0<=k<(s-rr+1)','k=s-rr')+' }' for x in mrows('(s-rr+1)','m0')],
   ('before',4):[f'assert {{ {LE("(s-rr-1)")} }}']+['assert { '+x+' }' for x in mrows('(s-rr)','m0')+mends('(s-rr)','m0',0)],
  })
PP=PP.replace("  predicate un_",r"""  predicate blkm (n a: int)     (* the words of the map: at most 1+3n *)
  axiom blkm_def: forall n a. blkm n a <-> exists k. 0<=k<=3*n /\ mlc ((1+k)*4)<=4*a<mlc ((1+k)*4)+(1+k)*4
  predicate un_""",1)

# what is posted: the k-th message goes to (comes from) the k-th processor of the list, from consecutive pieces of the buffer
XPRE=r"""
  predicate go int
  axiom go_: forall m. go m
  function mlc (bytes: int) : int
  function off (sz: map int int) (s u k: int) : int  (* bytes before message k *)
  axiom off_0: forall sz s u k. k <= 0 -> off sz s u k = 0
  axiom off_1: forall sz s u k [off sz s u k, go k]. k > 0 -> off sz s u k = off sz s u (k-1) + sz[s+k-1]*u
"""
def POST(nm,who): return dict(params=['req','c','va','n','peer','tag'],types=['int *','const struct comm *','void *','unsigned long','unsigned int','int'],take=[0,1,2,3,4,5],ret='void',
   w={'lq':'a=0','lreq':'a=@@lq[0]','lbuf':'a=@@lq[0]','llen':'a=@@lq[0]','lpeer':'a=@@lq[0]','ltag':'a=@@lq[0]'},why=f'{nm}: posts one message; its arguments are logged in ghost state',
   ensures=['@lq[0]=@@lq[0]+1','@lreq[@@lq[0]]=req','@lbuf[@@lq[0]]=va','@llen[@@lq[0]]=n','@lpeer[@@lq[0]]=peer','@ltag[@@lq[0]]=tag'])
XEXT={'comm_irecv':POST('comm_irecv','source'),'comm_isend':POST('comm_isend','target'),'smalloc':dict(EXT['smalloc'],ensures=['result=mlc size'],w={})}
def posted(ub,tag): return f'forall k. 0<=k<{ub} -> @lreq[l0+k]=req0+k /\\ @lbuf[l0+k]=buf0+off @u32 sz unit_size k /\\ @llen[l0+k]=@u32[sz+k]*unit_size /\\ @lpeer[l0+k]=@u32[pp+k] /\\ @ltag[l0+k]={tag}'
def xout(f): return f.replace('l0','@@lq[0]').replace('req0','req').replace('buf0','buf').replace('sz','@pw_comm_data_size[c]').replace('pp','@pw_comm_data_p[c]')
def xspec(tag): return dict(props=['C01','C04'],requires=['0<=@pw_comm_data_n[c]<='+UM,'forall q. @pw_comm_data_size[c]<=q<@pw_comm_data_size[c]+@pw_comm_data_n[c] -> 0<=@u32[q]*unit_size<='+UM,'forall q. @pw_comm_data_p[c]<=q<@pw_comm_data_p[c]+@pw_comm_data_n[c] -> 0<=@u32[q]<=2147483647','0<=@comm_id[comm]<=2147483647'],
   w={'lq':'a=0','lreq':'@@lq[0]<=a<@@lq[0]+@@pw_comm_data_n[c]','lbuf':'@@lq[0]<=a<@@lq[0]+@@pw_comm_data_n[c]','llen':'@@lq[0]<=a<@@lq[0]+@@pw_comm_data_n[c]','lpeer':'@@lq[0]<=a<@@lq[0]+@@pw_comm_data_n[c]','ltag':'@@lq[0]<=a<@@lq[0]+@@pw_comm_data_n[c]'},
   ensures=['@lq[0]=@@lq[0]+@pw_comm_data_n[c]',xout(posted('@pw_comm_data_n[c]',tag)),xout('result=buf0+off @u32 sz unit_size @pw_comm_data_n[c]')],
   loops={1:dict(inv=['0<=m<=nn','p=pp+m','pe=pp+nn','size=sz+m','req=req0+m','@lq[0]=l0+m','buf=buf0+off @u32 sz unit_size m',posted('m',tag)],var='nn-m')},
   ghost={'entry':['let ghost nn = @pw_comm_data_n[c]','let ghost pp = @pw_comm_data_p[c]','let ghost sz = @pw_comm_data_size[c]','let ghost l0 = @lq[0]','let ghost req0 = req','let ghost buf0 = buf','let ghost ref m = 0'],
      ('enter',1):['assert { m<nn }','assert { 0<=@u32[sz+m]*unit_size<='+UM+' }','assert { 0<=@u32[pp+m]<=2147483647 }','assert { go (m+1) }','assert { off @u32 sz unit_size (m+1)=off @u32 sz unit_size m+@u32[sz+m]*unit_size }'],('end',1):['m <- m+1']})
# the schedule of the router: at every stage the processes bl..bl+n-1 pair up across the middle
SPRE=r"""
  function bh_ (bl n: int) : int = bl + E.div (n+1) 2
  function t0_ (bl n id: int) : int = n-1-(id-bl)+bl
  function tg_ (bl n id: int) : int = if t0_ bl n id = id then bh_ bl n else t0_ bl n id
  function lo_ (id np k: int) : int   (* the group of process id at stage k: lo_ .. lo_+ct_-1 *)
  function ct_ (id np k: int) : int
  axiom lo_0: forall id np. lo_ id np 0 = 0
  axiom ct_0: forall id np. ct_ id np 0 = np
  axiom lo_1: forall id np k [go k, lo_ id np k]. k > 0 -> lo_ id np k = let b = lo_ id np (k-1) in let n = ct_ id np (k-1) in if id < bh_ b n then b else bh_ b n
  axiom ct_1: forall id np k [go k, ct_ id np k]. k > 0 -> ct_ id np k = let b = lo_ id np (k-1) in let n = ct_ id np (k-1) in if id < bh_ b n then bh_ b n - b else n - (bh_ b n - b)
  function pow2 int : int
  axiom pow2_0: pow2 0 = 1
  axiom pow2_1: forall k [pow2 k, go k]. k > 0 -> pow2 k = 2 * pow2 (k-1)
  let rec ghost pow_ge (k: int) requires { k >= 30 } ensures { pow2 k >= 1073741824 } variant { k } =
    if k > 30 then begin pow_ge (k-1); assert { go k } end else begin
    assert { go 1 /\ go 2 /\ go 3 /\ go 4 /\ go 5 /\ go 6 /\ go 7 /\ go 8 /\ go 9 /\ go 10 }; assert { pow2 10=1024 };
    assert { go 11 /\ go 12 /\ go 13 /\ go 14 /\ go 15 /\ go 16 /\ go 17 /\ go 18 /\ go 19 /\ go 20 }; assert { pow2 20=1048576 };
    assert { go 21 /\ go 22 /\ go 23 /\ go 24 /\ go 25 /\ go 26 /\ go 27 /\ go 28 /\ go 29 /\ go 30 } end
  let ghost pow_small (p k: int) requires { 0 <= k /\ p = pow2 k } ensures { p < 1073741824 -> k < 30 } = if k >= 30 then pow_ge k
  predicate stg (p1 p2 rn: map int int) (q id b n: int)   (* the entry says from whom this process receives: exactly those that send to it *)
  axiom stg_def: forall p1 p2 rn q id b n. stg p1 p2 rn q id b n <-> (p1[q] = tg_ b n id /\ b <= p1[q] < b+n /\ p1[q] <> id /\ (id < bh_ b n <-> p1[q] >= bh_ b n) /\ 0 <= rn[q] <= 2
     /\ (rn[q]=0 -> forall s. b <= s < b+n -> tg_ b n s <> id) /\ (rn[q]=1 -> forall s. b <= s < b+n -> (tg_ b n s = id <-> s = p1[q])) /\ (rn[q]=2 -> p2[q] <> p1[q] /\ forall s. b <= s < b+n -> (tg_ b n s = id <-> s = p1[q] \/ s = p2[q])))
"""
def stg(q): return f'stg @cr_stage_p1 @cr_stage_p2 @cr_stage_nrecvn ({q}) id'
ID='@@comm_id[comm]'; NP='@@comm_np[comm]'
def lc(k): return f'(lo_ {ID} {NP} {k}) (ct_ {ID} {NP} {k})'
def rows2(ub,T): return [f'forall j. 0<=j<{ub} -> {stg(T+"+j")} {lc("j")}',f'forall j. 0<=j<{ub} -> {stg(T+"+(nst+1)+j")} {lc("j")}']
DST='sub_cr_data_stage data'
def sout(x): return x.replace('nst','@cr_data_nstages[data]').replace(' id ',f' {ID} ')
XPS={'pw_exec_recvs':xspec('@u32[pp+k]'),'pw_exec_sends':xspec('@comm_id[comm]'),
 'cr_schedule':dict(wrap=['value in range of the assigned type'],prelude=SPRE,props=['C01','C04'],requires=['1<=@comm_np[comm]<=1073741823','0<=@comm_id[comm]<@comm_np[comm]','forall k a. 0<=k<=@comm_np[comm] -> recp_cr_stage (mlc ((2*(k+1))*56))<=a<recp_cr_stage (mlc ((2*(k+1))*56))+2*(k+1) -> newst a'],
   w={'cr_data_nstages':'a=data','ptr':f'a={DST} \\/ a={DST}+1','cr_stage_p1':'newst a','cr_stage_p2':'newst a','cr_stage_nrecvn':'newst a'},
   ensures=[sout(x) for x in [f'@ptr[{DST}+1]=@ptr[{DST}]+nst+1',f'ct_ {ID} {NP} nst=1',*rows2('nst',f'@ptr[{DST}]')]],
   loops={1:dict(inv=['1<=n','0<=bl','bl<=id<bl+n',f'bl+n<={NP}','0<=k',f'k+n<={NP}',f'bl=lo_ {ID} {NP} k',f'n=ct_ {ID} {NP} k',f'forall j. 0<=j<k -> ct_ {ID} {NP} j>1','p2k>=1','(n-1)*p2k<=@@comm_np[comm]-1','p2k=pow2 k','k<=30'],var='n'),
          2:dict(inv=['1<=n','0<=bl','bl<=id<bl+n',f'bl+n<={NP}','0<=k',f'k+n<={NP}',f'bl=lo_ {ID} {NP} k',f'n=ct_ {ID} {NP} k',f'k<=nst',f'ct_ {ID} {NP} nst=1','id=@@comm_id[comm]',f'@ptr[{DST}]=tb',f'@ptr[{DST}+1]=tb+nst+1','@cr_data_nstages[data]=nst',*rows2('k','tb')],var='n')},
   ghost={'entry':['let ghost ref p2k = 1'],('aftercall','smalloc',1):['let ghost nst = k','let ghost tb = recp_cr_stage (mlc ((2*(k+1))*56))',f'assert {{ forall j. 0<=j<nst -> ct_ {ID} {NP} j>1 }}'],
     ('before',2):['p2k <- 1'],('enter',1):['assert { go (k+1) }','pow_small p2k k'],('end',1):['p2k <- 2*p2k'],('enter',2):['assert { go (k+1) }','assert { k<nst }','let ghost b0 = bl','let ghost n0 = n',f'assert {{ b0=lo_ {ID} {NP} k /\\ n0=ct_ {ID} {NP} k }}'],
     ('endbody',2):['let ghost k0 = k-1','assert { @ptr[%s]=tb /\\ @ptr[%s+1]=tb+nst+1 }'%(DST,DST),
         'let ghost targ = @cr_stage_p1[tb+nst+1+k0]','let ghost recvn = @cr_stage_nrecvn[tb+nst+1+k0]','assert { @cr_stage_p1[tb+k0]=targ /\\ @cr_stage_nrecvn[tb+k0]=recvn }','assert { targ=tg_ b0 n0 id /\\ b0<=targ<b0+n0 /\\ targ<>id /\\ (id<bh_ b0 n0 <-> targ>=bh_ b0 n0) }','assert { recvn=0 -> forall s. b0<=s<b0+n0 -> tg_ b0 n0 s<>id }','assert { recvn=1 -> forall s. b0<=s<b0+n0 -> (tg_ b0 n0 s=id <-> s=targ) }','assert { recvn=2 -> targ<>id-1 /\\ id>=1 /\\ forall s. b0<=s<b0+n0 -> (tg_ b0 n0 s=id <-> s=targ \\/ s=id-1) }',
         'assert { recvn=2 -> @cr_stage_p2[tb+k0]=id-1 /\\ @cr_stage_p2[tb+nst+1+k0]=id-1 }']
         +['assert { %s b0 n0 }'%stg(q) for q in('tb+k0','tb+nst+1+k0')]
         +['assert { '+x+' }' for x in rows2('k0','tb')],
     'return':['assert { k=nst /\\ id=%s }'%ID]})}
XPS['cr_schedule']['prelude']+='  predicate newst int  (* the entries of the new table *)\n'

XPS['crl_bi_to_si']=dict(props=['C01','C04'],requires=[f'forall q. w<=q<w+n -> @crl_id_bi[q]+v<={UM}'],w={'crl_id_si':'w<=a<w+n'},r={'crl_id_bi':'w<=a<w+n'},ensures=['forall q. w<=q<w+n -> @crl_id_si[q]=@crl_id_bi[q]+v'],
  loops={1:dict(inv=['0<=n<=n_0','w=w_0+(n_0-n)','forall q. w_0<=q<w -> @crl_id_si[q]=@crl_id_bi[q]+v'],var='n')},ghost={('enter',1):[f'assert {{ @crl_id_bi[w]+v<={UM} }}']})
XPS['crl_ri_to_bi']=dict(props=['C01','C04'],w={'crl_id_bi':'w<=a<w+n'},r={'crl_id_ri':'w<=a<w+n'},ensures=['forall q. w<=q<w+n -> @crl_id_bi[q]=@crl_id_ri[q]'],
  loops={1:dict(inv=['0<=n<=n_0','w=w_0+(n_0-n)','forall q. w_0<=q<w -> @crl_id_bi[q]=@crl_id_ri[q]'],var='n')})
def units(): return [dict(file='src/gs.c',name='gs.c[maps]',specs=SPEC,prelude=PRE,extern=EXT),dict(file='src/gs.c',name='gs.c[pw]',specs=PWS,prelude=PP,extern=PEXT,bits=True),dict(file='src/gs.c',name='gs.c[msg]',specs=XPS,prelude=XPRE,extern=XEXT)]
