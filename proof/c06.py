"""contracts of the local kernels of gs_local.c (C06, C01-C03).  The values of a domain are an abstract type with the C
operations as uninterpreted functions; op `add`, `mul`, `min`, `max`, `bpr` are defined from them exactly as documented.
A map is a list of groups [primary, other.., -1].. -1: group k occupies positions g k .. e k of the map."""
TY={'double':('f64',8),'float':('f32',4),'int':('i32',4),'long':('i64',8),'long_long':('q64',8)}
OPS=['add','mul','min','max','bpr']
UM='4294967295'
FILE='src/gs_local.c'
def opdef(h,op):
    if op=='add': return f'c_add_{h} x y'
    if op=='mul': return f'c_mul_{h} x y'
    if op=='min': return f'if c_lt_{h} y x then y else x'
    if op=='max': return f'if c_lt_{h} x y then y else x'
    return f'if c_eq_{h} y (k_{h} 0) then x else if c_cast_{h}_u32 x = 0 then c_cast_u32_{h} (c_cast_{h}_u32 y) else c_cast_u32_{h} (hcp (c_cast_{h}_u32 x) (c_cast_{h}_u32 y))'
HCP='''
  (* the deepest common ancestor of two nodes of the binary tree rooted at 1 with children 2n and 2n+1 *)
  function hcp (x y: int) : int
  axiom hcp_def: forall x y. 0 <= x -> 0 <= y -> hcp x y = (if x < y then hcp x (E.div y 2) else if y < x then hcp (E.div x 2) y else x)
'''
def absops(h):
    return {f'c_add_{h}':([h,h],h,None),f'c_mul_{h}':([h,h],h,None),f'c_lt_{h}':([h,h],'bool',None),f'c_eq_{h}':([h,h],'bool',None),
            f'c_cast_{h}_u32':([h],'int',(0,4294967295)),f'c_cast_u32_{h}':(['int'],h,None)}
def opf(T,op): h=TY[T][0]; return (HCP if op=='bpr' else '')+f'''
  function opf_{op} (x y: {h}) : {h} = {opdef(h,op)}
'''
def fold(T,op):
    h=TY[T][0]
    return opf(T,op)+f'''
  (* acc op h[b+m[lo]*st] op ... op h[b+m[hi-1]*st], from left to right *)
  function fold_{op} (h: map int {h}) (b st: int) (m: map int int) (lo hi: int) (acc: {h}) : {h}
  axiom fold_{op}_nil: forall h b st m lo hi acc. hi <= lo -> fold_{op} h b st m lo hi acc = acc
  axiom fold_{op}_snoc: forall h b st m lo hi acc. lo <= hi -> fold_{op} h b st m lo (hi+1) acc = opf_{op} (fold_{op} h b st m lo hi acc) h[b + m[hi] * st]
'''
GP='(ghost g: int -> int) (ghost e: int -> int) (ghost ng: int) (ghost ind: int -> bool) (ghost outd: int -> bool)'
WF=['0<=ng','g 0=map','@u32[g ng]='+UM,'forall k. 0<=k<ng -> g k+2<=e k /\\ @u32[e k]=%s /\\ @u32[g k]<>%s /\\ g (k+1)=e k+1 /\\ map<=g k /\\ e k<g ng'%(UM,UM),
    'forall k p. 0<=k<ng -> g k<=p<e k -> @u32[p]<>'+UM,'forall p. map<=p<=g ng -> 0<=@u32[p]<='+UM]
PRIM=['forall k l. 0<=k<ng -> 0<=l<ng -> @u32[g k]=@u32[g l] -> k=l']
SEP='forall x. ind x -> outd x -> false'
def bprloop(): return dict(inv=['hcp a_ b_=hcp aa bb','0<=a_','0<=b_'],var='a_+b_')
def kernels(T):
    S={}; h=TY[T][0]
    lit=lambda x: f'@{h}[{x}]'
    for op in OPS:
        lp={1:dict(inv=['0<=n<=n_0','in_=in__0+(n_0-n)','out=out_0+(n_0-n)',f'forall a. out_0<=a<out -> @{h}[a]=opf_{op} @@{h}[a] @@{h}[in__0+(a-out_0)]',f'forall a. out<=a<out_0+n_0 -> @{h}[a]=@@{h}[a]'],var='n')}
        gh={}
        if op=='bpr': lp[2]=bprloop(); gh={('before',2):['let ghost aa = a_','let ghost bb = b_'],('after',2):['assert { a_=hcp aa bb }']}
        S[f'gather_array_{T}_{op}']=dict(prelude=opf(T,op),requires=['out+n<=in_ \\/ in_+n<=out'],w={h:'out<=a<out+n'},r={h:'in_<=a<in_+n'},
            ensures=[f'forall a. out<=a<out+n -> @{h}[a]=opf_{op} @@{h}[a] @@{h}[in_+(a-out)]'],loops=lp,ghost=gh,props=['C06'])
        # plain gather
        req=WF+PRIM+['forall k. 0<=k<ng -> outd (out+@u32[g k])','forall k p. 0<=k<ng -> g k<p<e k -> ind (in_+@u32[p]*in_stride)',SEP,
                'forall k p. 0<=k<ng -> g k<p<e k -> @u32[p]*in_stride<='+UM]
        lp={1:dict(inv=['0<=c<=ng','map=g c','map_0<=map<=g ng',f'forall k. 0<=k<c -> @{h}[out+@@u32[g k]]=fold_{op} @@{h} in_ in_stride @@u32 (g k+1) (e k) @@{h}[out+@@u32[g k]]',
                        f'forall k. c<=k<ng -> @{h}[out+@@u32[g k]]=@@{h}[out+@@u32[g k]]'],var='ng-c'),
            2:dict(inv=['c<ng','g c+1<map<=e c','map_0<=map','j=@@u32[map-1]',f't=fold_{op} @@{h} in_ in_stride @@u32 (g c+1) (map-1) @@{h}[out+@@u32[g c]]','i=@@u32[g c]'],var='e c-map')}
        if op=='bpr': lp[3]=bprloop(); 
        gh={'entry':['let ghost ref c = 0'],('end',1):['c <- c+1'],('enter',1):['assert { c<ng }','assert { i=@@u32[g c] }','assert { g c+2<=e c }',f'assert {{ @{h}[out+i]=@@{h}[out+i] }}'],
            ('enter',2):['assert { map-1<e c }','assert { j<>%s }'%UM,'assert { 0<=j*in_stride<=%s }'%UM,'assert { ind (in_+j*in_stride) }','assert { not outd (in_+j*in_stride) }',f'assert {{ @{h}[in_+j*in_stride]=@@{h}[in_+j*in_stride] }}',
               f'assert {{ fold_{op} @@{h} in_ in_stride @@u32 (g c+1) (map-1+1) @@{h}[out+@@u32[g c]]=opf_{op} t @@{h}[in_+j*in_stride] }}'],
            ('endbody',1):['assert { map-1=e c }']}
        if op=='bpr': gh[('before',3)]=['let ghost aa = a_','let ghost bb = b_']; gh[('after',3)]=['assert { a_=hcp aa bb }']
        S[f'gather_{T}_{op}']=dict(prelude=fold(T,op),ghostparams=GP,requires=req,w={h:'outd a'},r={h:'ind a','u32':'map<=a<=g ng'},
            ensures=[f'forall k. 0<=k<ng -> @{h}[out+@u32[g k]]=fold_{op} @@{h} in_ in_stride @u32 (g k+1) (e k) @@{h}[out+@@u32[g k]]'],loops=lp,ghost=gh,props=['C01','C06+'])
    IDN=idn(T)
    BLK=lambda k: f'out+@@u32[g {k}]*vn<=x<out+@@u32[g {k}]*vn+vn'
    S[f'init_array_{T}']=dict(prelude=IDN,requires=['0<=op<=4'],w={h:'out<=a<out+n'},ensures=[f'forall x. out<=x<out+n -> @{h}[x]=idn op'],props=['C06'],
        loops={1:dict(inv=['0<=n<=n_0','out=out_0+(n_0-n)',f'forall x. out_0<=x<out -> @{h}[x]=e','e=idn op'],var='n')})
    S[f'scatter_{T}']=dict(ghostparams=GP,requires=WF+['forall k. 0<=k<ng -> ind (in_+@u32[g k]*in_stride) /\\ @u32[g k]*in_stride<='+UM,
            'forall k p. 0<=k<ng -> g k<p<e k -> outd (out+@u32[p]*out_stride) /\\ @u32[p]*out_stride<='+UM,SEP,
            'forall k l p q. 0<=k<ng -> 0<=l<ng -> g k<p<e k -> g l<q<e l -> out+@u32[p]*out_stride=out+@u32[q]*out_stride -> k=l'],
        w={h:'outd a'},r={h:'ind a','u32':'map<=a<=g ng'},
        ensures=[f'forall k p. 0<=k<ng -> g k<p<e k -> @{h}[out+@u32[p]*out_stride]=@@{h}[in_+@u32[g k]*in_stride]'],
        loops={1:dict(inv=['0<=c<=ng','map=g c','map_0<=map<=g ng',f'forall k p. 0<=k<c -> g k<p<e k -> @{h}[out+@@u32[p]*out_stride]=@@{h}[in_+@@u32[g k]*in_stride]'],var='ng-c'),
               2:dict(inv=['c<ng','g c+1<map<=e c','map_0<=map','j=@@u32[map-1]','i=@@u32[g c]',f'forall k p. 0<=k<c -> g k<p<e k -> @{h}[out+@@u32[p]*out_stride]=@@{h}[in_+@@u32[g k]*in_stride]',
                    f'forall p. g c<p<map-1 -> @{h}[out+@@u32[p]*out_stride]=t'],var='e c-map')},
        ghost={'entry':['let ghost ref c = 0'],('end',1):['c <- c+1'],('enter',1):['assert { c<ng }','assert { i=@@u32[g c] }','assert { g c+2<=e c }','assert { 0<=i*in_stride<=%s }'%UM,'assert { ind (in_+i*in_stride) }','assert { not outd (in_+i*in_stride) }',f'assert {{ @{h}[in_+i*in_stride]=@@{h}[in_+i*in_stride] }}'],
           ('enter',2):['assert { map-1<e c }','assert { j<>%s }'%UM,'assert { 0<=j*out_stride<=%s }'%UM,'assert { outd (out+j*out_stride) }'],('endbody',1):['assert { map-1=e c }',f'assert {{ forall p. g c<p<e c -> @{h}[out+@@u32[p]*out_stride]=@@{h}[in_+@@u32[g c]*in_stride] }}',f'assert {{ forall k p. k=c -> g k<p<e k -> @{h}[out+@@u32[p]*out_stride]=@@{h}[in_+@@u32[g k]*in_stride] }}']},props=['C01','C06+'])
    W1=['0<=ng','g 0=map','@u32[g ng]='+UM,'forall k. 0<=k<ng -> @u32[g k]<>%s /\\ g (k+1)=g k+1 /\\ map<=g k<g ng'%UM,'forall p. map<=p<=g ng -> 0<=@u32[p]<='+UM]
    IG='(ghost g: int -> int) (ghost ng: int) (ghost outd: int -> bool)'
    S[f'init_{T}']=dict(prelude=IDN,ghostparams=IG,requires=W1+['0<=op<=4','forall k. 0<=k<ng -> outd (out+@u32[g k])'],w={h:'outd a'},r={'u32':'map<=a<=g ng'},
        ensures=[f'forall k. 0<=k<ng -> @{h}[out+@u32[g k]]=idn op'],
        loops={1:dict(inv=['0<=c<=ng','map=g c',f'forall k. 0<=k<c -> @{h}[out+@@u32[g k]]=e','e=idn op','map_0<=map<=g ng'],var='ng-c')},
        ghost={'entry':['let ghost ref c = 0'],('end',1):['c <- c+1'],('enter',1):['assert { c<ng }','assert { i=@@u32[g c] }']},props=['C01','C06+'])
    S[f'init_vec_{T}']=dict(prelude=IDN,ghostparams=IG,requires=W1+['0<=op<=4','vn>=1','forall k x. 0<=k<ng -> out+@u32[g k]*vn<=x<out+@u32[g k]*vn+vn -> outd x','forall k. 0<=k<ng -> @u32[g k]*vn<='+UM],w={h:'outd a'},r={'u32':'map<=a<=g ng'},
        ensures=[f'forall k x. 0<=k<ng -> out+@u32[g k]*vn<=x<out+@u32[g k]*vn+vn -> @{h}[x]=idn op'],
        loops={1:dict(inv=['0<=c<=ng','map=g c',f'forall k x. 0<=k<c -> {BLK("k")} -> @{h}[x]=e','e=idn op','map_0<=map<=g ng'],var='ng-c'),
               2:dict(inv=['bs<=u<bs+vn','ue=bs+vn',f'forall x. bs<=x<u -> @{h}[x]=e',f'forall k x. 0<=k<c -> {BLK("k")} -> @{h}[x]=e'],var='ue-u')},
        ghost={'entry':['let ghost ref c = 0'],('end',1):['c <- c+1'],('enter',1):['assert { c<ng }','assert { i=@@u32[g c] }','assert { 0<=vn*i<=%s }'%UM],('before',2):['let ghost bs = u','assert { bs=out+@@u32[g c]*vn }']},props=['C03','C06+'])
    for op in OPS:
        RES=lambda k: f'@{h}[x]=fold_{op} @@{h} (in_+(x-(out+@@u32[g {k}]*vn))) vn @@u32 (g {k}+1) (e {k}) @@{h}[x]'
        PREV=f'forall k x. 0<=k<c -> {BLK("k")} -> {RES("k")}'; NEXT=f'forall k x. c<k<ng -> {BLK("k")} -> @{h}[x]=@@{h}[x]'
        cur=lambda lo,hi,m: f'forall x. {lo}<=x<{hi} -> @{h}[x]=fold_{op} @@{h} (in_+(x-p)) vn @@u32 (g c+1) ({m}) @@{h}[x]'
        kb=4 if op=='bpr' else 0
        gh={'entry':['let ghost ref c = 0'],('end',1):['c <- c+1'],('enter',1):['assert { c<ng }','assert { i=@@u32[g c] }','assert { g c+2<=e c }','assert { 0<=i*vn<=%s }'%UM],
            ('before',2):['assert { p=out+@@u32[g c]*vn }',f'assert {{ forall x. p<=x<pe -> @{h}[x]=@@{h}[x] }}','assert { forall x. p<=x<pe -> outd x }'],
            ('enter',2):['assert { map-1<e c }','assert { j<>%s }'%UM,'assert { 0<=j*vn<=%s }'%UM,'assert { forall x. in_+j*vn<=x<in_+j*vn+vn -> ind x }'],
            ('enter',3):['assert { q=in_+j*vn+(pk-p) }',f'assert {{ @{h}[q]=@@{h}[q] }}',f'assert {{ fold_{op} @@{h} (in_+(pk-p)) vn @@u32 (g c+1) (map-1+1) @@{h}[pk]=opf_{op} @{h}[pk] @@{h}[q] }}'],
            ('after',2):['assert { map-1=e c }',f'assert {{ forall x. {BLK("c")} -> {RES("c")} }}',f'assert {{ forall k x. k=c -> {BLK("k")} -> {RES("k")} }}']}
        if op=='bpr': gh[('before',4)]=['let ghost aa = a_','let ghost bb = b_']; gh[('after',4)]=['assert { a_=hcp aa bb }']
        lp={1:dict(inv=['0<=c<=ng','map=g c','map_0<=map<=g ng',PREV,NEXT.replace('c<k','c<=k')],var='ng-c'),
            2:dict(inv=['c<ng','g c+1<map<=e c','map_0<=map','j=@@u32[map-1]',cur('p','pe','map-1'),PREV,NEXT],var='e c-map'),
            3:dict(inv=['p<=pk<pe','q=in_+j*vn+(pk-p)',cur('p','pk','map'),cur('pk','pe','map-1'),PREV,NEXT],var='pe-pk')}
        if op=='bpr': lp[4]=bprloop()
        S[f'gather_vec_{T}_{op}']=dict(prelude=fold(T,op),ghostparams=GP,
            requires=WF+['vn>=1','forall k. 0<=k<ng -> @u32[g k]*vn<='+UM,'forall k p. 0<=k<ng -> g k<p<e k -> @u32[p]*vn<='+UM,'forall k x. 0<=k<ng -> out+@u32[g k]*vn<=x<out+@u32[g k]*vn+vn -> outd x',
                'forall k p x. 0<=k<ng -> g k<p<e k -> in_+@u32[p]*vn<=x<in_+@u32[p]*vn+vn -> ind x',SEP,'forall k l. 0<=k<ng -> 0<=l<ng -> k<>l -> out+@u32[g k]*vn+vn<=out+@u32[g l]*vn \\/ out+@u32[g l]*vn+vn<=out+@u32[g k]*vn'],
            w={h:'outd a'},r={h:'ind a','u32':'map<=a<=g ng'},
            ensures=[f'forall k x. 0<=k<ng -> out+@u32[g k]*vn<=x<out+@u32[g k]*vn+vn -> @{h}[x]=fold_{op} @@{h} (in_+(x-(out+@u32[g k]*vn))) vn @u32 (g k+1) (e k) @@{h}[x]'],loops=lp,ghost=gh,props=['C03','C06+'])
    return S
LIM={'double':None,'float':None,'int':('2147483647','(-2147483648)'),'long':('9223372036854775807','(-9223372036854775808)'),'long_long':('9223372036854775807','(-9223372036854775808)')}
def idn(T):
    h=TY[T][0]
    if LIM[T]: mx,mn=f'k_{h} {LIM[T][0]}',f'k_{h} {LIM[T][1]}'
    else: mx,mn=FMAX[T]
    return f'''
  (* the identity element of each operation: add, mul, min, max, bpr *)
  function idn (op: int) : {h} = if op=0 then k_{h} 0 else if op=1 then k_{h} 1 else if op=2 then {mx} else if op=3 then {mn} else k_{h} 0
'''
import struct
DM=int(1.7976931348623157e308); FM=int(struct.unpack('<f',b'\xff\xff\x7f\x7f')[0])
FMAX={'double':(f'k_f64 {DM}',f'k_f64 (-{DM})'),'float':(f'k_f32 {FM}',f'k_f32 (-{FM})')}
SZ={T:TY[T][1] for T in TY}; DIX={T:i for i,T in enumerate(TY)}
def wrappers(T):
    """the exported entry points, for one domain: the dispatch on (dom,op) reaches the kernel of that domain and operation"""
    K=kernels(T); h=TY[T][0]; z=SZ[T]; S={}
    for U in TY:
        for n,sp in kernels(U).items():
            S[n]=dict(sp,elsewhere=True,prelude='') if U==T else dict(requires=['false'],elsewhere=True)
    allops=HCP+''.join(fold(T,op).replace(HCP,'') for op in OPS)
    import re
    sub=lambda x,v,dz: re.sub(r'\b(%s)\b'%'|'.join(dz),lambda m: v[m.group(1)],x)
    out,in_=f'(div out {z})',f'(div in_ {z})'
    al=[f'dom={DIX[T]}','0<=op<=4',f'mod out {z}=0',f'mod in_ {z}=0']; alo=al[:3]
    GC='g e ng ind outd'
    def lift(kern,perop,v,extra,gp,cg,props,pre='',noop=False,**kw):
        n0=kern.replace('@OP','add'); k0=K[n0]; tr=lambda x: sub(x,v,list(v)) if v else x
        en=[]
        for i,op in enumerate(OPS):
            k=K[kern.replace('@OP',op)]
            if perop: en+=[f'op={i} -> ({tr(x)})' for x in k['ensures']]
        if not perop: en=[tr(x) for x in k0['ensures']]
        d=dict(requires=extra+[tr(x) for x in k0.get('requires',[]) if x not in extra],w={a:tr(b) for a,b in k0['w'].items()},r={a:tr(b) for a,b in k0.get('r',{}).items()},ensures=en,prelude=pre,props=props)
        if gp: d['ghostparams']=k0['ghostparams']
        if cg: d['callghost']={kern.replace('@OP',op):cg for op in OPS}
        return d
    S['gs_gather_array']=lift(f'gather_array_{T}_@OP',True,{'out':out,'in_':in_},al,False,None,['C06'],allops)
    S['gs_init_array']=lift(f'init_array_{T}',False,{'out':out},alo,False,None,['C06'],idn(T))
    S['gs_gather']=lift(f'gather_{T}_@OP',True,{'out':out,'in_':in_,'in_stride':'1'},al,True,GC,['C01','C06+'],allops)
    S['gs_scatter']=lift(f'scatter_{T}',False,{'out':out,'in_':in_,'in_stride':'1','out_stride':'1'},[x for x in al if 'op' not in x],True,GC,['C01','C06+'])
    S['gs_init']=lift(f'init_{T}',False,{'out':out},alo,True,'g ng outd',['C01','C06+'],idn(T))
    S['gs_gather_vec']=lift(f'gather_vec_{T}_@OP',True,{'out':out,'in_':in_},al,True,GC,['C03','C06+'],allops)
    S['gs_init_vec']=lift(f'init_vec_{T}',False,{'out':out},alo,True,'g ng outd',['C03','C06+'],idn(T))
    return {('gslib_'+k if k.startswith('gs_') else k):v for k,v in S.items()}
def units():
    U=[dict(file=FILE,specs=kernels(T),abstract=[TY[T][0]],absops=absops(TY[T][0])) for T in TY]
    for T in TY: U.append(dict(file=FILE,name=f'gs_local.c[{T}]',specs=wrappers(T),abstract=[TY[T][0]],absops=absops(TY[T][0])))
    return U
