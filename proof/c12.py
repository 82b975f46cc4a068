"""contracts of sarray_transfer.c (C12, C13): what is packed for, and unpacked from, the crystal router.
The stream is a sequence of messages; message k occupies words g k .. g (k+1)-1: target, source, length, rows."""
UM='4294967295'
PRE=r'''
  predicate go int
  axiom go_: forall m. go m
  function rsv (va bytes: int) : int   (* the address the reserve operation answers with *)
  (* rows packed one after the other, a header of three words before every run of rows with one key *)
  predicate brk (pk: int -> int) (i: int)
  axiom brk_def: forall pk i [brk pk i]. brk pk i <-> i = 0 \/ pk i <> pk (i-1)
  function e (pk: int -> int) (o rs i: int) : int
  axiom e_0: forall pk o rs i. i <= 0 -> e pk o rs i = o
  axiom e_1: forall pk o rs i [e pk o rs i, go i]. i > 0 -> e pk o rs i = e pk o rs (i-1) + (if brk pk (i-1) then 3 else 0) + rs
  function pos (pk: int -> int) (o rs k: int) : int  (* first word of row k *)
  axiom pos_def: forall pk o rs k [pos pk o rs k]. pos pk o rs k = e pk o rs (k+1) - rs
  predicate run (pk: int -> int) (i j: int)
  axiom run_def: forall pk i j [run pk i j]. run pk i j <-> brk pk i /\ forall m [brk pk m]. i<m<j -> not brk pk m
  let rec ghost e_all (pk: int -> int) (o rs n: int) requires { 0 <= n /\ 0 <= rs }
    ensures { o <= e pk o rs n <= o+n*(rs+3) } ensures { forall k. 0<=k<n -> o <= e pk o rs k /\ e pk o rs k + (if brk pk k then 3 else 0) = pos pk o rs k /\ pos pk o rs k + rs <= e pk o rs n }
    ensures { forall j k. 0<=j<k<=n -> pos pk o rs j + rs <= e pk o rs k } 
    ensures { forall j k. 0<=j<=k<=n -> e pk o rs j <= e pk o rs k } variant { n }
   = if n > 0 then begin e_all pk o rs (n-1); assert { go n }; assert { pos pk o rs (n-1)=e pk o rs n-rs }; assert { forall k. 0<=k<n -> k=n-1 \/ k<n-1 } end
  let ghost mulmono (j n s: int) requires { 0<=j<n /\ 0<=s } ensures { 0<=j*s /\ j*s+s<=n*s } = assert { n*s-(j+1)*s=(n-j-1)*s >= 0 }
  let rec ghost gmono (g: int -> int) (n: int) requires { 0 <= n } requires { forall k. 0<=k<n -> g k+3<=g (k+1) }
    ensures { forall j k. 0<=j<=k<=n -> g j-3*j<=g k-3*k } variant { n } = if n > 0 then begin gmono g (n-1); assert { g (n-1)+3<=g n by g ((n-1)+1)=g n } end
'''
RES=dict(params=['va','min','size'],types=['struct array *','unsigned long','unsigned long'],take=[0,1,2],ret='void *',w={'array_ptr':'a=va','array_max':'a=va'},
   why='array_reserve_: contract proved for C14 (proof/c14.py); here only: the answer is the new block address, aligned for unsigned',
   ensures=['result=rsv va (min*size)','@array_ptr[va]=result','mod result 4=0'])
EXT={'array_reserve_':RES}
GR=['0<=ng','mod @array_ptr[data] 4=0','g 0=div @array_ptr[data] 4','g ng=g 0+@array_n[data]','forall k. 0<=k<ng -> g (k+1)=g k+3+@u32[g k+2] /\\ 0<=@u32[g k+2] /\\ g k<g (k+1)<=g ng /\\ g 0<=g k']
GP='(ghost g: int -> int) (ghost ng: int)'
GH={('entry'):['let ghost ref c = 0','gmono g ng'],('enter',1):['assert { g c<g ng }','assert { c<ng }','assert { g (c+1)=g c+3+@u32[g c+2] }','assert { g 0-3*0<=g c-3*c<=g (c+1)-3*(c+1)<=g ng-3*ng }'],('end',1):['c <- c+1']}
CAPR='(m=0 \\/ g m-g 0-3*m<max*row_size) /\\ max*row_size<=g (m+1)-g 0-3*(m+1)'
PK=['0<=i<=n','out=e pk o0 row_size i','i=0 -> lp='+UM+' /\\ len=0 /\\ len_ptr=dm','i>0 -> lp=pk (i-1) /\\ 0<=st<i /\\ run pk st i /\\ len_ptr=pos pk o0 row_size st-1 /\\ len=e pk o0 row_size i-len_ptr-1',
  'forall k. 0<=k<i -> brk pk k -> @u32[pos pk o0 row_size k-3]=pk k /\\ @u32[pos pk o0 row_size k-2]=id',
  'forall k j. 0<=k<j<i -> run pk k j -> brk pk j -> @u32[pos pk o0 row_size k-1]=e pk o0 row_size j-(pos pk o0 row_size k)']
O0='div (rsv data (4*(n*(row_size+3)))) 4'
OUT=['forall k. 0<=k<n -> brk pk k -> @u32[pos pk (%s) row_size k-3]=pk k /\\ @u32[pos pk (%s) row_size k-2]=id'%(O0,O0),
  'forall k j. 0<=k<j<=n -> run pk k j -> j=n \\/ brk pk j -> @u32[pos pk (%s) row_size k-1]=e pk (%s) row_size j-(pos pk (%s) row_size k)'%(O0,O0,O0),
  '@array_n[data]=e pk (%s) row_size n-(%s)'%(O0,O0)]
def row(lo,hi,d,src): return f'forall x. {lo}<=x<{hi} -> @i8[x]=@@i8[{src}+(x-({d}))]'
def rows(ub,o0):
    R=f'(4*(pos pk {o0} row_size k))'
    return [f'forall k. 0<=k<{ub} -> {row(R,R+"+p_off",R,"(input+size*@@u32[perm+k])")}',f'forall k. 0<=k<{ub} -> {row(R+"+p_off",R+"+(size-4)",R+"+p_off","(input+size*@@u32[perm+k]+p_off+4)")}']
def rowx(ub,o0):
    R=f'(4*(pos pk {o0} row_size k))'
    return [f'forall k. 0<=k<{ub} -> {row(R,R+"+size",R,"(input+size*@@u32[perm+k])")}']
BLK='let b0=rsv data (4*(n*(row_size+3))) in let b1=b0+4*(n*(row_size+3)) in '
def pack(key,key2,rows,reads,req,ent,gp=''):
    return dict(memtype='char',ghostparams='(ghost pk: int -> int) (ghost dm: int)'+gp,local={'dummy':'$=dm'},
     requires=req+['n*(row_size+3)<='+UM,'n*size<='+UM,'size>=1','row_size>=1','forall q. perm<=q<perm+n -> 0<=@u32[q]<n','forall k. 0<=k<n -> pk k='+key+' /\\ 0<=pk k<'+UM,
       BLK+'b1<=input \\/ input+n*size<=b0',BLK+'b1<=4*perm \\/ 4*(perm+n)<=b0','dm<perm \\/ dm>=perm+n',BLK+'4*dm+4<=b0 \\/ b1<=4*dm'],
     w={'u32':f'a=dm \\/ {O0}<=a<{O0}+n*(row_size+3)','i8':f'rsv data (4*(n*(row_size+3)))<=a<rsv data (4*(n*(row_size+3)))+4*(n*(row_size+3))','array_ptr':'a=data','array_max':'a=data','array_n':'a=data'},
     r=reads,ensures=OUT+rows('n','('+O0+')')+['@array_ptr[data]=rsv data (4*(n*(row_size+3)))'],
     loops={1:dict(inv=PK+rows('i','o0'),var='n-i')},
     ghost={'entry':['let ghost o0 = '+O0,'let ghost ref st = 0','e_all pk o0 row_size n','let ghost ref hb = @u32','let ghost ref hc = @i8']+ent,
       ('before',1):['assert { @array_ptr[data]=4*o0 }','assert { out=o0 }'],
       ('enter',1):['hb <- @u32','hc <- @i8','assert { e pk o0 row_size i+(if brk pk i then 3 else 0)=pos pk o0 row_size i }','assert { e pk o0 row_size (i+1)=pos pk o0 row_size i+row_size <= e pk o0 row_size n }','assert { @u32[perm+i]=@@u32[perm+i] }',
                    'mulmono @u32[perm+i] n size','assert { 0<=size*@u32[perm+i] /\\ size*@u32[perm+i]+size<=n*size }','let ghost rr = input+size*@u32[perm+i]','assert { rr=input+size*@@u32[perm+i] }','assert { input<=rr /\\ rr+size<=input+n*size }','assert { forall q. rr<=q<rr+size -> @i8[q]=@@i8[q] }']+key2+['let ghost len_at = len_ptr','assert { i>0 -> len_at=pos pk o0 row_size st-1 }'],
       ('decl','row'):['assert { row=rr }'],
       ('endbody',1):['assert { brk pk i -> i>0 -> forall k. 0<=k<i -> run pk k i -> k=st }','assert { brk pk i -> i>0 -> @u32[pos pk o0 row_size st-1]=e pk o0 row_size i-pos pk o0 row_size st }','assert { forall k j. 0<=k<j<i -> run pk k j -> brk pk j -> k<>st /\\ o0<=pos pk o0 row_size k-1 /\\ pos pk o0 row_size k-1<>dm /\\ pos pk o0 row_size k-1<>pos pk o0 row_size st-1 /\\ pos pk o0 row_size k+row_size<=e pk o0 row_size i }','assert { forall q. o0<=q<e pk o0 row_size i -> q<>len_at -> @u32[q]=hb[q] }','assert { forall k j. 0<=k<j<i -> run pk k j -> brk pk j -> @u32[pos pk o0 row_size k-1]=hb[pos pk o0 row_size k-1] }','assert { forall k j. 0<=k<j<i -> run pk k j -> brk pk j -> @u32[pos pk o0 row_size k-1]=e pk o0 row_size j-pos pk o0 row_size k }',
         'if pure { brk pk i } then st <- i','assert { out=e pk o0 row_size (i+1) }','assert { forall q. q<4*e pk o0 row_size i -> @i8[q]=hc[q] }','assert { forall k. 0<=k<i -> pos pk o0 row_size k+row_size<=e pk o0 row_size i }']
          +['assert { forall k j. 0<=k<j<i -> run pk k j -> brk pk j -> @u32[pos pk o0 row_size k-1]=e pk o0 row_size j-pos pk o0 row_size k }']+['assert { '+x+' }' for x in rows('i','o0')]+['assert { '+x.replace('0<=k<i','k=i')+' }' for x in rows('i','o0')],
       'exit':['assert { forall k. k=n -> true }'],
     })
KI='c_get4 @i8 (input+size*@u32[perm+k]+p_off)'
RDI={'i8':'input<=a<input+n*size','u32':'perm<=a<perm+n'}
SPEC={
 'num_rows':dict(ghostparams=GP,requires=GR+['row_size>=1','g ng-g 0<='+UM],r={'u32':'exists k. 0<=k<ng /\\ a=g k+2','array_ptr':'a=data','array_n':'a=data'},ensures=['result=div (g ng-g 0-3*ng) row_size'],
   loops={1:dict(inv=['0<=c<=ng','buf=g c','buf_end=g ng','n=g c-g 0-3*c'],var='ng-c')},ghost=GH),
 'cap_rows':dict(ghostparams=GP,requires=GR+['row_size>=1','g ng-g 0<='+UM,'max*row_size<='+UM],
   w={'u32':'exists m. 0<=m<ng /\\ '+CAPR+' /\\ a=g m+2','array_n':'a=data'},r={'u32':'exists k. 0<=k<ng /\\ a=g k+2','array_ptr':'a=data','array_n':'a=data'},
   ensures=['result=div (g ng-g 0-3*ng) row_size','g ng-g 0-3*ng<max*row_size -> @array_n[data]=@@array_n[data] /\\ forall k. 0<=k<ng -> @u32[g k+2]=@@u32[g k+2]',
     'forall m. 0<=m<ng -> '+CAPR+' -> @u32[g m+2]=max*row_size-(g m-g 0-3*m) /\\ @array_n[data]=g m-g 0+3+@u32[g m+2] /\\ forall k. 0<=k<ng -> k<>m -> @u32[g k+2]=@@u32[g k+2]'],
   loops={1:dict(inv=['0<=c<=ng','buf=g c','buf_end=g ng','n=g c-g 0-3*c','maxn=max*row_size','c=0 \\/ n<maxn','forall q. @u32[q]=@@u32[q]','@array_n[data]=@@array_n[data]'],var='ng-c'),
          2:dict(inv=['0<=c<=ng','buf=g c','buf_end=g ng','n=g c-g 0-3*c','forall k. c<=k<ng -> @u32[g k+2]=@@u32[g k+2]','c>m0'],var='ng-c')},
   ghost={'entry':['let ghost ref c = 0','let ghost ref m0 = 0','gmono g ng','assert { forall j k. 0<=j<k<=ng -> g j<g k }'],('enter',1):GH[('enter',1)]+['m0 <- c'],('end',1):['c <- c+1'],('before',2):['c <- c+1'],('enter',2):GH[('enter',1)],('end',2):['c <- c+1']}),
 'pack_int':pack(KI,['assert { c_get4 @i8 (rr+p_off)=c_get4 @@i8 (rr+p_off)=pk i }'],rows,RDI,['p_off+4<=size','size-4<=4*row_size'],[]),
 'pack_ext':pack('@u32[proc+ps*@u32[perm+k]]',['mulmono @u32[perm+i] n ps','let ghost rp = ps*@u32[perm+i]','assert { proc_stride*@u32[perm+i]=4*rp }','assert { 0<=rp /\\ rp+ps<=n*ps }','assert { @@u32[proc+rp]=pk i }','assert { @u32[proc+rp]=@@u32[proc+rp] }'],rowx,{'i8':'input<=a<input+n*size','u32':'perm<=a<perm+n \\/ proc<=a<proc+n*ps'},['proc_stride=4*ps /\\ 1<=ps','size<=4*row_size','n*proc_stride<='+UM,BLK+'b1<=4*proc \\/ 4*proc+4*(n*ps)<=b0','dm<proc \\/ dm>=proc+n*ps'],['assert { n*proc_stride=4*(n*ps) }','assert { div proc_stride 4=ps /\\ mod proc_stride 4=0 }'],' (ghost ps: int)'),
}
# rows read back: row r sits at word sw r of the stream, in message mk r; message k holds rows fr k .. fr (k+1)-1
GU=GR+['row_size>=1','fr 0=0','forall k. 0<=k<ng -> 0<=fr k<=fr (k+1)<=fr ng /\\ g k+3<=g (k+1) /\\ (fr k=fr (k+1) -> g (k+1)=g k+3)',
  'forall k r. 0<=k<ng -> fr k<=r<fr (k+1) -> mk r=k /\\ g k+3<=sw r /\\ sw r+row_size<=g (k+1) /\\ (r=fr k -> sw r=g k+3) /\\ (r+1<fr (k+1) -> sw (r+1)=sw r+row_size) /\\ (r+1=fr (k+1) -> g (k+1)=sw r+row_size)']
UGP='(ghost g: int -> int) (ghost ng: int) (ghost fr: int -> int) (ghost sw: int -> int) (ghost mk: int -> int)'
NO=['out+fr ng*size<=4*g 0 \\/ 4*g ng<=out']
UPRE=PRE+r"""
  function at_ (b s k: int) : int
  axiom at_def: forall b s k. at_ b s k = b + k*s
  let ghost atm (b s n: int) requires { 0 <= s } ensures { forall k l [at_ b s k, at_ b s l]. 0<=k<l<=n -> at_ b s k + s <= at_ b s l } ensures { at_ b s 0 = b /\ at_ b s n = b+n*s } ensures { forall k. 0<=k<=n -> b <= at_ b s k <= at_ b s n } ensures { forall k. 0<=k<n -> at_ b s (k+1) = at_ b s k + s }
   = assert { forall k l. k<l -> k*s+s<=l*s by (l-k-1)*s>=0 }; assert { forall k. 0<=k -> 0<=k*s }; assert { forall k. k<=n -> k*s<=n*s by (n-k)*s>=0 }
"""
A='at_ out0 size %s'
def got(ub,lo,hi,src): return f'forall q. 0<=q<{ub} -> forall x. at_ out0 size q+{lo}<=x<at_ out0 size q+{hi} -> @i8[x]=@@i8[{src}+(x-(at_ out0 size q+{lo}))]'
def unpack(posts,lens,extra,eb=[]):
    I=['0<=r<=fr ng','@array_n[data]=@@array_n[data]','out=at_ out0 size r','forall q. not (out0<=q<at_ out0 size r) -> @i8[q]=@@i8[q]']+posts('r')
    G='let ghost at0 = at_ out0 size r'
    return dict(memtype='char',ghostparams=UGP,requires=GU+NO+lens,w={'i8':'out<=a<out+fr ng*size'},r={'u32':'g 0<=a<g ng','i8':'4*g 0<=a<4*g ng','array_ptr':'a=data','array_n':'a=data'},
     ensures=[x.replace('out0','out') for x in posts('fr ng')],
     loops={1:dict(inv=['0<=c<=ng','buf=g c','buf_end=g ng','r=fr c']+I,var='ng-c'),2:dict(inv=['0<=c<ng','msg_end=g (c+1)','fr c<=r<=fr (c+1)','buf=(if r<fr (c+1) then sw r else g (c+1))']+I+extra,var='fr (c+1)-r')},
     ghost={'entry':['let ghost out0 = out','let ghost ref c = 0','let ghost ref r = 0','atm out size (fr ng)','let ghost ref hb = @i8','gmono g ng','assert { forall j k. 0<=j<k<=ng -> g j<g k }'],
       ('enter',1):['assert { g c<g ng }','assert { c<ng }','assert { g (c+1)=g c+3+@u32[g c+2] }','assert { fr c=fr (c+1) \\/ sw (fr c)=g c+3 }'],
       ('endbody',1):['assert { r=fr (c+1) }'],('end',1):['c <- c+1'],
       ('enter',2):['assert { r<fr (c+1) }','hb <- @i8','assert { at_ out0 size r+size=at_ out0 size (r+1) }','assert { at_ out0 size (r+1)<=at_ out0 size (fr ng) }','assert { g c+3<=sw r /\\ sw r+row_size<=g (c+1) /\\ mk r=c }','assert { g 0<=g c /\\ g (c+1)<=g ng }','assert { g 0<=sw r /\\ sw r+row_size<=g ng }'],
       ('endbody',2):eb+['assert { forall q. 0<=q<r -> at_ out0 size q+size<=at_ out0 size r }','assert { forall q. q<at_ out0 size r -> @i8[q]=hb[q] }']+['assert { '+x+' }' for x in posts('r')]+['assert { '+x.replace('0<=q<r','q=r')+' }' for x in posts('r')],('end',2):['r <- r+1']})
UI='(if set_src<>0 then 1 else 0)'
USPEC={'unpack_more':unpack(lambda ub:[got(ub,'0','size','4*sw q+off')],['off+size<=4*row_size'],[]),
 'unpack_int':unpack(lambda ub:[got(ub,'0','p_off','4*sw q'),got(ub,'(p_off+4)','size','4*sw q+p_off'),f'forall q. 0<=q<{ub} -> c_get4 @i8 (at_ out0 size q+p_off)=@@u32[g (mk q)+{UI}]'],['p_off+4<=size','size-4<=4*row_size'],[f'p=@@u32[g c+{UI}]'],['let ghost ao = at_ out0 size r+p_off','assert { @i8[ao]=c_byte 0 p /\\ @i8[ao+1]=c_byte 1 p /\\ @i8[ao+2]=c_byte 2 p /\\ @i8[ao+3]=c_byte 3 p }','assert { c_get4 @i8 ao=p }'])}
def pm(ub): return f'forall q. 0<=q<{ub} -> forall x. 4*sw q+off<=x<4*sw q+off+size -> @i8[x]=@@i8[input+size*@@u32[perm0+q]+(x-(4*sw q+off))]'
PI=['0<=r<=fr ng','perm=perm0+r',pm('r'),'forall q. not (4*g 0<=q<4*g ng) -> @i8[q]=@@i8[q]']
USPEC['pack_more']=dict(memtype='char',ghostparams=UGP+' (ghost n: int)',requires=GU+['off+size<=4*row_size','n*size<='+UM,'fr ng<=n','forall q. perm<=q<perm+n -> 0<=@u32[q]<n','input+n*size<=4*g 0 \\/ 4*g ng<=input',
   'forall j k. 0<=j<k<fr ng -> sw j+row_size<=sw k'],
  w={'i8':'exists q. 0<=q<fr ng /\\ 4*sw q+off<=a<4*sw q+off+size'},r={'u32':'g 0<=a<g ng \\/ perm<=a<perm+fr ng','i8':'input<=a<input+n*size','array_ptr':'a=data','array_n':'a=data'},
  ensures=[pm('fr ng').replace('perm0','perm')],
  loops={1:dict(inv=['0<=c<=ng','buf=g c','buf_end=g ng','r=fr c']+PI,var='ng-c'),2:dict(inv=['0<=c<ng','msg_end=g (c+1)','fr c<=r<=fr (c+1)','buf=(if r<fr (c+1) then sw r else g (c+1))']+PI,var='fr (c+1)-r')},
  ghost={'entry':['let ghost perm0 = perm','let ghost ref c = 0','let ghost ref r = 0','let ghost ref hb = @i8','gmono g ng','assert { forall j k. 0<=j<k<=ng -> g j<g k }'],
    ('enter',1):['assert { g c<g ng }','assert { c<ng }','assert { g (c+1)=g c+3+@u32[g c+2] }','assert { fr c=fr (c+1) \\/ sw (fr c)=g c+3 }'],('endbody',1):['assert { r=fr (c+1) }'],('end',1):['c <- c+1'],
    ('enter',2):['assert { r<fr (c+1) }','hb <- @i8','assert { r<fr ng }','mulmono @u32[perm0+r] n size','assert { 0<=size*@u32[perm0+r] /\\ size*@u32[perm0+r]+size<=n*size }','assert { g c+3<=sw r /\\ sw r+row_size<=g (c+1) /\\ mk r=c }','assert { g 0<=g c /\\ g (c+1)<=g ng }'],
    ('endbody',2):['assert { forall q. 0<=q<r -> sw q+row_size<=sw r }','assert { forall q. q<4*sw r -> @i8[q]=hb[q] }','assert { '+pm('r')+' }','assert { '+pm('r').replace('0<=q<r','q=r')+' }'],('end',2):['r <- r+1']})
def units(): return [dict(file='src/sarray_transfer.c',specs=SPEC,prelude=PRE,extern=EXT),dict(file='src/sarray_transfer.c',name='sarray_transfer.c[unpack]',specs=USPEC,prelude=UPRE)]
