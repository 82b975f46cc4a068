"""C18: the point-to-cell hash of findpts (findpts.c, findpts_local.c): every point strictly inside a box lies in one of the cells
of that box's range, ranges of contained boxes are contained, and the bit masks and cell lists say exactly which cells are covered."""
UM='4294967295'; UL='18446744073709551615'
EXT={'floor':dict(params=['x'],types=['double'],ret='double',take=[0],ensures=['result=tofi (RT.floor x)'],why='libm: the largest integer not above the argument'),
     'ceil':dict(params=['x'],types=['double'],ret='double',take=[0],ensures=['result=tofi (RT.ceil x)'],why='libm: the smallest integer not below the argument')}
BASE=r'''
  function hx (low fac: real) (n: int) (x: real) : int = let i = RT.floor ((x -. low) *. fac) in if i < 0 then 0 else if n-1 < i then n-1 else i
  function cl (low fac x: real) : real = (x -. low) *. fac
  predicate inb (bl bu fac: real) (n: int) (l u: real) = bl <=. l /\ l <. u /\ u <=. bu /\ fac = tofi n /. (bu -. bl)
'''
FCD='''
  function fcd (n: int) (hi lo: real) : real
  val ghost fcdd (n: int) (hi lo: real) : unit ensures { fcd n hi lo = tofi n /. (hi -. lo) }
'''
RANGE=r'''
  let ghost mulle (a b f: real) requires { a <=. b /\ f >=. 0.0 } ensures { a *. f <=. b *. f } = assert { (b -. a) *. f >=. 0.0 }
  let ghost mullt (a b f: real) requires { a <. b /\ f >. 0.0 } ensures { a *. f <. b *. f } = assert { (b -. a) *. f >. 0.0 }
  let ghost divm (n d f: real) requires { d >. 0.0 /\ f = n /. d } ensures { d *. f = n } = ()
  let ghost divp (n d f: real) requires { d >. 0.0 /\ n >. 0.0 /\ f = n /. d } ensures { f >. 0.0 } = assert { d *. f = n }
  (* the scaled ends of a box inside the bounds *)
  let ghost ends (bl bu fac: real) (n: int) (l u: real) requires { 1 <= n } requires { inb bl bu fac n l u } ensures { 0.0 <=. cl bl fac l <. cl bl fac u <=. tofi n } ensures { fac >. 0.0 }
   = assert { bu -. bl >. 0.0 }; assert { tofi n >=. 1.0 }; divp (tofi n) (bu -. bl) fac; divm (tofi n) (bu -. bl) fac; mulle 0.0 (l -. bl) fac; mullt (l -. bl) (u -. bl) fac; mulle (u -. bl) (bu -. bl) fac
  let ghost fl (a b: real) (n: int) requires { 0.0 <=. a <. b <=. tofi n } ensures { 0 <= RT.floor a < RT.ceil b <= n } 
   = assert { tofi (RT.floor a) <=. a }; assert { b <=. tofi (RT.ceil b) }; assert { tofi (RT.floor a) <. tofi (RT.ceil b) }; assert { RT.ceil (tofi n) = n }; assert { RT.ceil b <= RT.ceil (tofi n) }; assert { RT.floor 0.0 = 0 }
  let ghost cov (a b c: real) (n: int) requires { 0.0 <=. a <=. c /\ c <. b /\ b <=. tofi n } ensures { RT.floor a <= RT.floor c < RT.ceil b <= n } 
   = fl c b n
'''
RANGE+=r'''
  let ghost covx (bl bu fac: real) (n: int) (l u x: real) requires { 1 <= n } requires { inb bl bu fac n l u } requires { l <=. x <. u } ensures { RT.floor (cl bl fac l) <= hx bl fac n x < RT.ceil (cl bl fac u) <= n }
   = ends bl bu fac n l u; mulle (l -. bl) (x -. bl) fac; mullt (x -. bl) (u -. bl) fac; cov (cl bl fac l) (cl bl fac u) (cl bl fac x) n; assert { hx bl fac n x = RT.floor (cl bl fac x) by cl bl fac x = (x -. bl) *. fac }
'''
FD={2:'findpts_hash_data_2',3:'findpts_hash_data_3'}
LD={2:'findpts_local_hash_data_2',3:'findpts_local_hash_data_3'}
def fields(R):
    return (lambda d: f'@dbl_range_min[sub_{R}_bnd p+{d}]' if d!='0' and d!=0 else f'@dbl_range_min[sub_{R}_bnd p]'),(lambda d: f'@dbl_range_max[sub_{R}_bnd p+{d}]' if d!=0 else f'@dbl_range_max[sub_{R}_bnd p]'),(lambda d: f'@f64[sub_{R}_fac p+{d}]' if d!=0 else f'@f64[sub_{R}_fac p]'),f'@{R}_hash_n[p]'
def spec(R,D,big,names):
    mn,mx,fc,n=fields(R); U=UL if big else UM; lim='9000000000000000000.0' if big else '2000000000.0'
    nD='*'.join([n]*D)
    X=lambda d:f'@f64[x+{d}]' if d else '@f64[x]'
    h=lambda d:f'(hx {mn(d)} {fc(d)} {n} {X(d)})'
    idx=f'(({h(2)}*{n}+{h(1)})*{n}+{h(0)})' if D==3 else f'({h(1)}*{n}+{h(0)})'
    rmn=f'@dbl_range_min[sub_{R}_bnd p+d]'; rmx=f'@dbl_range_max[sub_{R}_bnd p+d]'; rf=f'@f64[sub_{R}_fac p+d]'
    S={}
    bound=f'-. {lim} <=. cl {{0}} {{1}} {{2}} <=. {lim}'
    S[f'hash_index_{D}']=dict(requires=[f'1<={n}',f'{nD}<={U}']+[bound.format(mn(d),fc(d),X(d)) for d in range(D)],
       ensures=[f'result={idx}',f'0<=result<{nD}']+[f'0<={h(d)}<{n}' for d in range(D)],
       ghost={'entry':[f'mlt {h(1)} {n} {n}']+([f'mlt {h(2)} {n} {n}',f'mlt ({h(2)}*{n}+{h(1)}) ({n}*{n}) {n}'] if D==3 else [])})
    F=f'sub_{R}_fac p'; B=f'sub_{R}_bnd p'
    done=lambda hi: f'forall q. {F}<=q<{F}+{hi} -> @f64[q] = fcd n @dbl_range_max[{B}+(q-{F})] @dbl_range_min[{B}+(q-{F})]'
    S[f'hash_setfac_{D}']=dict(w={'f64':f'sub_{R}_fac p<=a<sub_{R}_fac p+{D}',f'{R}_hash_n':'a=p'},
       ensures=[f'@{R}_hash_n[p]=n',done(D)],loops={1:dict(inv=[f'0<=d<={D}',done('d')],var=f'{D}-d')},prelude=FCD,ghost={('enter',1):['let ghost hb=@f64'],('endbody',1):[f'fcdd n {rmx} {rmn}',f'assert {{ {rf} = fcd n {rmx} {rmn} }}',f'assert {{ forall q. {F}<=q<{F}+d -> @f64[q]=hb[q] }}']})
    S[f'hash_range_{D}']=dict(requires=[f'0<=d<{D}',f'1<={n}<={"9000000000000000000" if big else "2000000000"}',f'inb {rmn} {rmx} {rf} {n} r_min r_max'],
       ensures=[f'let (lo,up)=result in lo=RT.floor (cl {rmn} {rf} r_min) /\\ up=RT.ceil (cl {rmn} {rf} r_max) /\\ 0<=lo<up<={n}',f'let (lo,up)=result in r_min<=.x<.r_max -> lo<=hx {rmn} {rf} {n} x<up'],ghostparams='(ghost x: real)',
       ghost={'entry':[f'if pure {{ r_min<=.x<.r_max }} then covx {rmn} {rmx} {rf} {n} r_min r_max x',f'ends {rmn} {rmx} {rf} {n} r_min r_max',f'fl (cl {rmn} {rf} r_min) (cl {rmn} {rf} r_max) {n}']})
    return S
MLT='  let ghost mlt (a b c: int) requires { 0 <= a < b /\\ 0 <= c } ensures { 0 <= a*c /\\ a*c+c <= b*c } = assert { (b-a-1)*c >= 0 /\\ a*c >= 0 }\n'
def common(big):
    f,c=('lfloor','lceil') if big else ('ifloor','iceil'); lim='9000000000000000000.0' if big else '2000000000.0'; bi=lim[:-2]
    fr='assert { RT.floor x <= %s by RT.floor x <= RT.floor (tofi %s) }; assert { -%s <= RT.floor x by RT.floor (tofi (-%s)) <= RT.floor x }'%(bi,bi,bi,bi)
    cr=fr.replace('floor','ceil')
    return {f:dict(requires=[f'-. {lim} <=. x <=. {lim}'],ensures=['result=RT.floor x'],ghost={'entry':fr.split('; ')}),
            c:dict(requires=[f'-. {lim} <=. x <=. {lim}'],ensures=['result=RT.ceil x'],ghost={'entry':cr.split('; ')}),
            'hash_index_aux':dict(requires=['1<=n',f'-. {lim} <=. cl low fac x <=. {lim}'],ensures=['result=hx low fac n x','0<=result<n'])}
def unit(f,big,RR):
    S=common(big)
    for D in(2,3): S.update(spec(RR[D],D,big,None))
    for k in S:
        if k.startswith('hash_index_') and k!='hash_index_aux' : S[k]['prelude']=MLT
        if k.startswith('hash_range'): S[k]['prelude']=RANGE
    return dict(file='src/'+f,name=f+'[hash]',specs=S,real='total',prelude=BASE,extern=EXT)

BITS=r"""
  predicate tb (x k: int)   (* binary digit k of x *)
  axiom tb_def: forall x k. 0 <= x -> 0 <= k -> (tb x k <-> mod (div x (P.power 2 k)) 2 = 1)
  axiom tb_or: forall x y k. 0 <= x -> 0 <= y -> 0 <= k -> (tb (bor x y) k <-> tb x k \/ tb y k)
  axiom tb_p2: forall k l. 0 <= k -> 0 <= l -> (tb (P.power 2 k) l <-> k = l)
  predicate msk (h: map int int) (p i: int)
  axiom bit_def: forall h p i. msk h p i <-> tb h[p+div i 8] (mod i 8)
  function nb (x k: int) : int   (* how many of the first k digits are one *)
  axiom nb_0: forall x k. k <= 0 -> nb x k = 0
  axiom nb_1: forall x k. 0 <= k -> tb x k -> nb x (k+1) = nb x k + 1
  axiom nb_2: forall x k. 0 <= k -> not tb x k -> nb x (k+1) = nb x k
  function nbits (h: map int int) (p t: int) : int   (* how many of the first t bits of the mask are set *)
  axiom nbits_0: forall h p t. t <= 0 -> nbits h p t = 0
  axiom nbits_1: forall h p t. 0 <= t -> msk h p t -> nbits h p (t+1) = nbits h p t + 1
  axiom nbits_2: forall h p t. 0 <= t -> not msk h p t -> nbits h p (t+1) = nbits h p t
  let ghost pw8 () : unit ensures { P.power 2 0 = 1 /\ P.power 2 1 = 2 /\ P.power 2 2 = 4 /\ P.power 2 3 = 8 /\ P.power 2 4 = 16 /\ P.power 2 5 = 32 /\ P.power 2 6 = 64 /\ P.power 2 7 = 128 }
    = assert { P.power 2 1 = 2*P.power 2 0 }; assert { P.power 2 2 = 2*P.power 2 1 }; assert { P.power 2 3 = 2*P.power 2 2 }; assert { P.power 2 4 = 2*P.power 2 3 }; assert { P.power 2 5 = 2*P.power 2 4 }; assert { P.power 2 6 = 2*P.power 2 5 }; assert { P.power 2 7 = 2*P.power 2 6 }
  let ghost bdiv (i: int) requires { 0 <= i } ensures { 0 <= mod i 8 < 8 /\ i = 8*div i 8+mod i 8 /\ 0 <= div i 8 } = ()
  let rec ghost nbyte (h: map int int) (p n k: int) requires { 0 <= n /\ 0 <= k <= 8 } ensures { nbits h p (8*n+k) = nbits h p (8*n) + nb h[p+n] k } variant { k }
    = if k > 0 then begin nbyte h p n (k-1); assert { div (8*n+k-1) 8 = n /\ mod (8*n+k-1) 8 = k-1 }; assert { msk h p (8*n+k-1) <-> tb h[p+n] (k-1) } end
  let rec ghost nbpos (h: map int int) (p s t: int) requires { 0 <= s <= t } ensures { 0 <= nbits h p s <= nbits h p t <= nbits h p s + (t-s) } variant { t }
    = if t > s then nbpos h p s (t-1) else if t > 0 then nbpos h p (s-1) (t-1)
"""
SB={'set_bit':dict(w={'u8':'a=p+div i 8'},ensures=['msk @u8 p i','forall k. 0<=k -> k<>i -> (msk @u8 p k <-> msk @@u8 p k)'],
       ghost={'entry':['bdiv i','pw8 ()'],'exit':['assert { @u8[p+div i 8] = bor @@u8[p+div i 8] (P.power 2 (mod i 8)) }','assert { forall k. 0<=k -> k<>i -> div k 8 = div i 8 -> (msk @u8 p k <-> msk @@u8 p k) by (msk @u8 p k <-> tb @u8[p+div k 8] (mod k 8)) /\\ (msk @@u8 p k <-> tb @@u8[p+div k 8] (mod k 8)) /\\ mod k 8 <> mod i 8 }']}),
    'get_bit':dict(ensures=['msk @u8 p i -> result=1','not msk @u8 p i -> result=0'],ghost={'entry':['bdiv i','pw8 ()']}),
    'byte_bits':dict(ensures=['result=nb x 8','0<=result<=8'],loops={1:dict(inv=['0<=bit<=8','sum=nb x bit','0<=sum<=bit'],var='8-bit')},ghost={'entry':['pw8 ()']}),
    'count_bits':dict(requires=['8*n<=4294967295'],ensures=['result=nbits @u8 p (8*n)'],loops={1:dict(inv=['0<=n<=n0','p=p0+(n0-n)','sum=nbits @u8 p0 (8*(n0-n))','sum<=8*(n0-n)'],var='n')},ghost={'entry':['let ghost n0 = n','let ghost p0 = p'],('enter',1):['nbyte @u8 p0 (n0-n) 8']})}

FH=r"""
  let ghost mlt (a b c: int) requires { 0 <= a < b /\ 0 <= c } ensures { 0 <= a*c /\ a*c+c <= b*c } = assert { (b-a-1)*c >= 0 /\ a*c >= 0 }
  let ghost dm (j n i t: int) requires { 0 <= j /\ 0 <= i < n /\ t = j*n+i } ensures { div t n = j /\ mod t n = i } = assert { div t n = j by mod t n = t - n*div t n /\ (div t n - j)*n = i - mod t n }
  let ghost dnp (h np m: int) requires { 0 <= h < m /\ 1 <= np /\ m <= 4294967295*np } ensures { 0 <= div h np <= 4294967295 /\ 0 <= mod h np < np } = assert { h = np*div h np + mod h np }; assert { div h np <= 4294967295 by (np*div h np < 4294967295*np) }
  predicate okp (pr ix h: map int int) (hh m np q v: int)   (* the entry of cell q, when its bit is set, is (v mod np, v div np) *)
  val ghost okpd (pr ix h: map int int) (hh m np q v: int) : unit ensures { okp pr ix h hh m np q v <-> (msk h m q -> pr[hh+nbits h m q] = mod v np /\ ix[hh+nbits h m q] = div v np) }
  let ghost okpf (pr ix pr2 ix2 h: map int int) (hh m np q v: int) requires { okp pr ix h hh m np q v } requires { msk h m q -> pr2[hh+nbits h m q] = pr[hh+nbits h m q] /\ ix2[hh+nbits h m q] = ix[hh+nbits h m q] } ensures { okp pr2 ix2 h hh m np q v } = okpd pr ix h hh m np q v; okpd pr2 ix2 h hh m np q v
  function hid2 (hn n0 b0 b1 t: int) : int
  val ghost hid2d (hn n0 b0 b1 t: int) : unit ensures { hid2 hn n0 b0 b1 t = (b1+div t n0)*hn+(b0+mod t n0) }
  function hid3 (hn n0 n1 b0 b1 b2 t: int) : int
  let ghost hv3 (b2 b1 b0 hn k j i dk mj mi: int) requires { dk = k /\ mj = j /\ mi = i } ensures { ((b2+dk)*hn+(b1+mj))*hn+(b0+mi) = ((b2+k)*hn+(b1+j))*hn+(b0+i) } = ()
  val ghost hid3d (hn n0 n1 b0 b1 b2 t: int) : unit ensures { hid3 hn n0 n1 b0 b1 b2 t = ((b2+div (div t n0) n1)*hn+(b1+mod (div t n0) n1))*hn+(b0+mod t n0) }
"""
def fillh(D):
    N=lambda d:f'@u32[local_n+{d}]' if d else '@u32[local_n]'
    B=lambda d:f'@w64[local_base+{d}]' if d else '@w64[local_base]'
    hid=f'hid2 hn {N(0)} {B(0)} {B(1)}' if D==2 else f'hid3 hn {N(0)} {N(1)} {B(0)} {B(1)} {B(2)}'
    hidd=hid.replace('hid%d'%D,'hid%dd'%D)
    M='local_mask'; H='(div @array_ptr[hash] 8)'
    nb=lambda t:f'nbits @u8 {M} ({t})'
    tot='*'.join(N(d) for d in range(D-1,-1,-1)); hD='*'.join(['hn']*D)
    OK=lambda pr,ix,q:f'okp {pr} {ix} @u8 {H} {M} np {q} ({hid} {q})'
    ok=lambda hi:[f'forall q. 0<=q<{hi} -> {OK("@proc_index_proc","@proc_index_index","q")}']
    inv=lambda b:[f'bit={b}',f'hp={H}+{nb("bit")}']+ok('bit')
    c='jk' if D==3 else 'j'
    if D==2: L={1:dict(inv=[f'0<=j<={N(1)}']+inv(f'j*{N(0)}'),var=f'{N(1)}-j'),2:dict(inv=[f'0<=i<={N(0)}']+inv(f'j*{N(0)}+i'),var=f'{N(0)}-i')}
    else: L={1:dict(inv=[f'0<=k<={N(2)}']+inv(f'k*{N(1)}*{N(0)}'),var=f'{N(2)}-k'),2:dict(inv=[f'0<=j<={N(1)}']+inv(f'(k*{N(1)}+j)*{N(0)}'),var=f'{N(1)}-j'),3:dict(inv=[f'0<=i<={N(0)}']+inv(f'(k*{N(1)}+j)*{N(0)}+i'),var=f'{N(0)}-i')}
    inn=D
    row='j' if D==2 else f'(k*{N(1)}+j)'
    g={}
    if D==2: g[('enter',1)]=[f'mlt j {N(1)} {N(0)}',f'assert {{ (j+1)*{N(0)}=j*{N(0)}+{N(0)} }}']
    else:
        g[('enter',1)]=[f'mlt k {N(2)} ({N(1)}*{N(0)})',f'assert {{ k*{N(1)}*{N(0)}=k*({N(1)}*{N(0)}) /\\ (k+1)*{N(1)}*{N(0)}=k*{N(1)}*{N(0)}+{N(1)}*{N(0)} /\\ (k*{N(1)}+{N(1)})*{N(0)}=(k+1)*{N(1)}*{N(0)} }}']
        g[('enter',2)]=[f'mlt j {N(1)} {N(0)}',f'assert {{ (k*{N(1)}+j)*{N(0)}=k*{N(1)}*{N(0)}+j*{N(0)} }}',f'assert {{ (k*{N(1)}+(j+1))*{N(0)}=(k*{N(1)}+j)*{N(0)}+{N(0)} }}']
    hv=f'({B(1)}+j)*hn+({B(0)}+i)' if D==2 else f'(({B(2)}+k)*hn+({B(1)}+j))*hn+({B(0)}+i)'
    bnd=[f'mlt ({B(1)}+j) hn hn'] if D==2 else [f'mlt ({B(2)}+k) hn hn',f'mlt (({B(2)}+k)*hn+({B(1)}+j)) (hn*hn) hn']
    g[('enter',inn)]=[f'let ghost b_ = bit','let ghost hp_ = hp','let ghost hpr = @proc_index_proc','let ghost hix = @proc_index_index',f'nbpos @u8 {M} b_ ({tot})',f'nbpos @u8 {M} (b_+1) ({tot})',f'dm {row} {N(0)} i b_']+([f'dm k {N(1)} j {row}'] if D==3 else [])+bnd+[f'{hidd} b_',f'assert {{ div b_ {N(0)}={row} /\\ mod b_ {N(0)}=i }}']+([f'assert {{ div {row} {N(1)}=k /\\ mod {row} {N(1)}=j }}'] +[f'hv3 {B(2)} {B(1)} {B(0)} hn k j i (div {row} {N(1)}) (mod {row} {N(1)}) (mod b_ {N(0)})',f'assert {{ div (div b_ {N(0)}) {N(1)} = div {row} {N(1)} /\\ mod (div b_ {N(0)}) {N(1)} = mod {row} {N(1)} }}'] if D==3 else [])+[f'assert {{ {hid} b_={hv} }}',f'assert {{ 0<={hid} b_<{hD} }}',f'dnp ({hid} b_) np ({hD})',f'assert {{ forall q. 0<=q<b_ -> msk @u8 {M} q -> {nb("q")}<{nb("b_")} }}']
    A='@proc_index_proc'; I='@proc_index_index'
    g[('endbody',inn)]=[f'assert {{ forall q. 0<=q<b_ -> msk @u8 {M} q -> {A}[{H}+{nb("q")}]=hpr[{H}+{nb("q")}] /\\ {I}[{H}+{nb("q")}]=hix[{H}+{nb("q")}] }}',f'assert {{ msk @u8 {M} b_ -> {A}[{H}+{nb("b_")}]=mod ({hid} b_) np /\\ {I}[{H}+{nb("b_")}]=div ({hid} b_) np }}']
    g[('endbody',inn)]+=[f'for qq_ = 0 to b_-1 do invariant {{ forall q. 0<=q<qq_ -> {OK(A,I,"q")} }} okpf hpr hix {A} {I} @u8 {H} {M} np qq_ ({hid} qq_) done',f'okpd {A} {I} @u8 {H} {M} np b_ ({hid} b_)','assert { bit=b_+1 }']
    g[('after',1)]=[f'assert {{ bit={tot} }}']
    g[('entry')]=[f'nblt @u8 {M} ({tot})']
    g[('enter',inn)][-1]=f'nblt @u8 {M} b_'; g[('enter',inn)].append(f'okpd @proc_index_proc @proc_index_index @u8 {H} {M} np b_ ({hid} b_)')
    return dict(keep=[f'hi={hid} b_'],requires=[f'mod @array_ptr[hash] 8=0',f'0<=hn /\\ {hD}<=18446744073709551615','1<=np',f'{hD}<=4294967295*np']+[f'{B(d)}+{N(d)}<=hn' for d in range(D)]+[f'{tot}<=4294967295','%s*%s<=4294967295'%(N(1),N(0))]+[f'0<={N(d)}<=4294967295' for d in range(D)]+[f'0<={B(d)}' for d in range(D)],
      w={'proc_index_proc':f'{H}<=a<{H}+{nb(tot)}','proc_index_index':f'{H}<=a<{H}+{nb(tot)}'},ensures=ok(tot),loops=L,ghost=g,prelude=FH+r"""
  let rec ghost nblt (h: map int int) (p t: int) requires { 0 <= t } ensures { forall q. 0 <= q < t -> msk h p q -> nbits h p q < nbits h p t } variant { t } = if t > 0 then begin nblt h p (t-1); nbpos h p (t-1) t end
""")
SB['fill_hash_2']=fillh(2); SB['fill_hash_3']=fillh(3)

def maskspec(D):
    R=FD[D]; mn,mx,fc,n=fields(R); P=['local_base','local_n']
    N=lambda d:f'@u32[local_n+{d}]' if d else '@u32[local_n]'
    B=lambda d:f'@w64[local_base+{d}]' if d else '@w64[local_base]'
    omn=lambda e,d:(f'@dbl_range_min[sub_obbox_{D}_x (obb+{e})+{d}]' if d else f'@dbl_range_min[sub_obbox_{D}_x (obb+{e})]').replace('(obb+@)','e')
    omx=lambda e,d:omn(e,d).replace('range_min','range_max')
    lo=lambda e,d:f'RT.floor (cl {mn(d)} {fc(d)} {omn(e,d)})'
    hi=lambda e,d:f'RT.ceil (cl {mn(d)} {fc(d)} {omx(e,d)})'
    G=range(D); gx=[f'gx{d}' for d in G]
    C=lambda d:f'(hx {mn(d)} {fc(d)} {n} gx{d})'
    tot='*'.join(N(d) for d in range(D-1,-1,-1))
    lin=lambda c: f'({c(1)}-{B(1)})*{N(0)}+({c(0)}-{B(0)})' if D==2 else f'(({c(2)}-{B(2)})*{N(1)}+({c(1)}-{B(1)}))*{N(0)}+({c(0)}-{B(0)})'
    INS='0<=ge<nel /\\ '+' /\\ '.join(f'{omn("ge",d)}<=.gx{d}<.{omx("ge",d)}' for d in G)
    F=lambda d:f'(ir_min[{d}]={lo("el",d)} /\\ ir_max[{d}]={hi("el",d)} /\\ 0<=ir_min[{d}]<ir_max[{d}]<={n} /\\ {B(d)}<=ir_min[{d}] /\\ ir_max[{d}]<={B(d)}+{N(d)} /\\ (ins -> el=ge -> ir_min[{d}]<={C(d)}<ir_max[{d}]))'
    pres='forall q. 0<=q -> msk @@u8 local_mask q -> msk @u8 local_mask q'
    done='ins -> ge<el -> msk @u8 local_mask cell'
    com=['0<=el<nel',pres,done]+[F(d) for d in G]
    L={1:dict(inv=['0<=el<=nel',pres,done],var='nel-el'),2:dict(inv=[f'0<=d<={D}','0<=el<nel']+[f'{d}<d -> {F(d)}' for d in G],var=f'{D}-d')}
    V='ijk'; g={'entry':[f'let ghost ins = pure {{ {INS} }}',f'let ghost cell = {lin(C)}']}
    k=3; past=[]
    for d in range(D-1,-1,-1):
        v=V[d]; pv=' \\/ '.join([('('+' /\\ '.join([f'{V[q]}={C(q)}' for q in range(D-1,d,-1)]+[f'{v}>{C(d)}'])+')')] + [('('+' /\\ '.join([f'{V[q]}={C(q)}' for q in range(D-1,x,-1)]+[f'{V[x]}>{C(x)}'])+')') for x in range(D-1,d,-1)])
        L[k]=dict(inv=com+[f'ir_min[{q}]<={V[q]}<ir_max[{q}]' for q in range(D-1,d,-1)]+[f'ir_min[{d}]<={v}<=ir_max[{d}]',f'ins -> el=ge -> ({pv}) -> msk @u8 local_mask cell'],var=f'ir_max[{d}]-{v}')
        k+=1
    inn=k-1
    g[('enter',inn)]=[f'mlt (j-{B(1)}) {N(1)} {N(0)}']+([f'mlt (k-{B(2)}) {N(2)} {N(1)}',f'mlt ((k-{B(2)})*{N(1)}+(j-{B(1)})) ({N(2)}*{N(1)}) {N(0)}'] if D==3 else [])+[f'let ghost t_ = {lin(lambda d:V[d])}',f'assert {{ 0<=t_<{tot} }}','eqc '+' '.join([f'(pure {{ {V[d]} }}) {C(d)} {B(d)}' for d in G]+[N(d) for d in range(D-1)])+' t_ cell']
    g[('enter',inn)][-1]=f'eqc{D} '+' '.join(f'{V[d]} {C(d)} {B(d)}' for d in G)+' '+' '.join(N(d) for d in range(D-1))+' t_ cell'
    g[('endbody',inn)]=['assert { msk @u8 local_mask t_ }']
    dm=f'@dbl_range_min[sub_{R}_bnd p+d]'; dx=dm.replace('range_min','range_max'); df=f'@f64[sub_{R}_fac p+d]'; em=f'@dbl_range_min[sub_obbox_{D}_x (obb+el)+d]'; ex=em.replace('range_min','range_max')
    g[('enter',2)]=['assert { '+' \\/ '.join(f'd={q}' for q in G)+' }']+[f'assert {{ d={q} -> {dm}={mn(q)} /\\ {dx}={mx(q)} /\\ {df}={fc(q)} /\\ {em}={omn("el",q)} /\\ {ex}={omx("el",q)} }}' for q in G]+[f'assert {{ d={q} -> inb {dm} {dx} {df} {n} {em} {ex} }}' for q in G]+[f'assert {{ inb {dm} {dx} {df} {n} {em} {ex} }}','let ghost d_ = d']
    g[('endbody',2)]=[f'assert {{ ir_min[d_]=RT.floor (cl {dm} {df} {em}) /\\ ir_max[d_]=RT.ceil (cl {dm} {df} {ex}) /\\ 0<=ir_min[d_]<ir_max[d_]<={n} }}'.replace('+d]','+d_]')]+[f'assert {{ d_={q} -> {F(q)} }}' for q in G]
    return dict(recmaps=True,ghostparams='(ghost ge: int) '+' '.join(f'(ghost gx{d}: real)' for d in G),callghost={f'hash_range_{D}':'(if d=0 then gx0 else gx1)' if D==2 else '(if d=0 then gx0 else if d=1 then gx1 else gx2)'},
      prelude=MLT+r"""
  let ghost eqc2 (i c0 b0 j c1 b1 n0 t cell: int) requires { t = (j-b1)*n0+(i-b0) /\ cell = (c1-b1)*n0+(c0-b0) } ensures { i = c0 -> j = c1 -> t = cell } = ()
  let ghost eqc3 (i c0 b0 j c1 b1 k c2 b2 n0 n1 t cell: int) requires { t = ((k-b2)*n1+(j-b1))*n0+(i-b0) /\ cell = ((c2-b2)*n1+(c1-b1))*n0+(c0-b0) } ensures { i = c0 -> j = c1 -> k = c2 -> t = cell } = ()
""",
      requires=[f'1<={n}<=9000000000000000000',f'{tot}<=4294967295',f'{N(0)}*{N(1)}<=4294967295']+[f'0<={B(d)} /\\ 0<={N(d)}' for d in G]+[f'forall e. obb<=e<obb+nel -> inb {mn(d)} {mx(d)} {fc(d)} {n} {omn("@",d)} {omx("@",d)} /\\ {B(d)}<={lo("@",d)} /\\ {hi("@",d)}<={B(d)}+{N(d)}' for d in G],
      w={'u8':f'local_mask<=a<local_mask+div ({tot}+7) 8'},
      ensures=[f'{INS} -> msk @u8 local_mask ({lin(C)})',pres],loops=L,ghost=g)
# the same names without their definitions: set_local_mask needs only what the contract of hash_range says about them
OPAQ='''
  function hx (low fac: real) (n: int) (x: real) : int
  function cl (low fac x: real) : real
  predicate inb (bl bu fac: real) (n: int) (l u: real)
'''
def masku():
    S={f'set_local_mask_{D}':maskspec(D) for D in(2,3)}
    S['set_bit']=dict(SB['set_bit'],elsewhere=True)
    for D in(2,3): S[f'hash_range_{D}']=dict(spec(FD[D],D,True,None)[f'hash_range_{D}'],elsewhere=True)
    return dict(file='src/findpts.c',name='findpts.c[mask]',specs=S,real='total',bits=True,prelude=OPAQ+BITS,extern=EXT)

import sortx
TPRE=r"""
  function mlc (bytes: int) : int   (* the address malloc answers with *)
  axiom mlc_al: forall b. mod (mlc b) 4 = 0
  predicate inbuf (b a: int)   (* the words of a scratch buffer *)
  let ghost posm (a b: int) requires { a >= 1 /\ b >= 1 } ensures { a*b >= 1 } = assert { (a-1)*(b-1) >= 0 }
"""
def tabx():
    E=sortx.ext({'proc_index':(8,{'proc':(0,'ui'),'index':(4,'ui')},['proc','index'])})
    def sub(o):
        if isinstance(o,str): return o.replace('recp_proc_index bs','(div bs 8)').replace('recp_proc_index va','(div va 8)')
        if isinstance(o,dict): return {k:sub(v) for k,v in o.items()}
        if isinstance(o,list): return [sub(v) for v in o]
        return o
    E=sub(E); E.pop('gslib_sortp_ull',None)
    E['smalloc']=dict(params=['size','file','line'],types=['unsigned long','const char *','unsigned int'],take=[0],ret='void *',w={'u32':'mlc size<=4*a<mlc size+size'},why='smalloc: contract proved for C14; here: the answer is a block aligned for its element type, not part of any live object',ensures=['result=mlc size','mod result 4=0'])
    E['smalloc']=dict(E['smalloc'],params=['size'],types=['unsigned long'])
    return E
def tab(D):
    R=FD[D]; hn=f'@{R}_hash_n[p]'; hD='*'.join([hn]*D)
    H='(div @array_ptr[hash] 8)'; n='@array_n[hash]'
    NC=f'(div (({hD})-1) np+1)'; BL=f'mlc (4*({NC}+1+{n}))'; OF=f'(div ({BL}) 4)'
    I=lambda q:f'@proc_index_index[hh+{q}]'; P=lambda q:f'@proc_index_proc[hh+{q}]'
    # the cell table: positions below the start of cell c are those of the entries with a smaller cell
    T=lambda lo,hi,m:[f'forall c. o0<=c<o0+{hi} -> nc+1<=@u32[c]<=nc+1+{m}',f'forall c q. o0<=c<o0+{hi} -> hh<=q<hh+{m} -> (@proc_index_index[q]<c-o0 <-> nc+1+(q-hh)<@u32[c])']
    PR=lambda m:[f'forall c. o0+nc+1<=c<o0+nc+1+{m} -> @u32[c]=@proc_index_proc[hh+(c-(o0+nc+1))]']
    srt=['forall j k. hh<=j<=k<hh+n0 -> @proc_index_index[j]<=@proc_index_index[k]']
    inr=[f'forall q. hh<=q<hh+n0 -> 0<=@proc_index_index[q]<nc']
    nx='next_cell=(if i=0 then 0 else @proc_index_index[hh+i-1]+1)'
    low=f'forall q. hh+i<=q<hh+n0 -> next_cell<=@proc_index_index[q]+1'
    L={1:dict(inv=['0<=i<=n0','0<=next_cell<=nc',nx]+T(0,'next_cell','i')+PR('i'),var='n0-i'),
       2:dict(inv=['0<=next_cell<=nc','off=nc+1+i','0<=i<n0','cell=@proc_index_index[hh+i]','next_cell<=cell+1','i=0 \\/ @proc_index_index[hh+i-1]<next_cell']+T(0,'next_cell','i+1')+PR('i+1'),var='cell+1-next_cell'),
       3:dict(inv=['0<=next_cell<=nc+1','off__2=nc+1+n0','forall q. hh<=q<hh+n0 -> @proc_index_index[q]<next_cell']+T(0,'next_cell','n0')+PR('n0'),var='nc+1-next_cell')}
    L[2]['inv']=[x for x in L[2]['inv'] if not x.startswith('i=0')]
    L[2]['inv']+=[f'forall q. hh<=q<hh+i -> @proc_index_index[q]<next_cell']
    L[1]['inv']+=[f'forall q. hh<=q<hh+i -> @proc_index_index[q]<next_cell']
    g={'entry':[f'let ghost hh = {H}',f'let ghost n0 = {n}',f'let ghost nc = {NC}',f'let ghost o0 = {OF}'],
       ('beforecall','smalloc',1):['assert { ncell=nc }'],
       ('aftercall','smalloc',1):['assert { %s=4*o0 }'%BL.replace('@array','@@array')],
       ('aftercall','gslib_sarray_permute_buf_',1):['let ghost sr = @srt','let ghost si = @sri']+['assert { '+x+' }' for x in srt+inr],
       ('before',1):['assert { offset=o0 }','assert { hp=hh }'],
       ('enter',1):['assert { @proc_index_index[hh+i]<nc }'],('before',3):['assert { i=n0 }']}
    ent='let hh='+H.replace('@','@@')+' in let n0='+n.replace('@','@@')+' in let nc='+NC.replace('@','@@')+' in let o0='+OF.replace('@','@@')+' in '
    ens=[f'@{R}_offset[p]={OF}'.replace('@array','@@array').replace(hn,'@'+hn)]+[ent+x for x in T(0,'(nc+1)','n0')+PR('n0')+srt]
    ens+=[ent+f'0<=ge<n0 -> 0<=@sri[ge]<n0 /\\ @proc_index_proc[hh+@sri[ge]]=@@proc_index_proc[hh+ge] /\\ @proc_index_index[hh+@sri[ge]]=@@proc_index_index[hh+ge]']
    ens+=[ent+f'0<=ge<n0 -> let c=@@proc_index_index[hh+ge] in let o=nc+1+@sri[ge] in @u32[o0+c]<=o<@u32[o0+c+1] /\\ @u32[o0+o]=@@proc_index_proc[hh+ge]']
    return dict(ghostparams='(ghost ge: int)',callghost={'gslib_sortp_ui':'(@array_ptr[hash])'},
      requires=[f'1<={hn} /\\ {hD}<=18446744073709551615','1<=np',f'{NC}+1+{n}<=4294967295','mod @array_ptr[hash] 8=0',f'0<={n}','buf<>hash',
        f'forall q. {H}<=q<{H}+{n} -> 0<=@proc_index_index[q]<{NC}'],
      w={'u32':f'inbuf buf a \\/ {OF}<=a<{OF}+({NC}+1+{n})','srt':'true','sri':'true','proc_index_proc':f'{H}<=a<{H}+{n}','proc_index_index':f'{H}<=a<{H}+{n}','array_ptr':'a=buf','array_max':'a=buf','array_n':'a=buf',f'{R}_offset':'a=p'},
      ensures=ens,loops=L,ghost=g)
def tabu():
    S={f'table_from_hash_{D}':tab(D) for D in(2,3)}
    return dict(file='src/findpts.c',name='findpts.c[table]',specs=S,prelude=TPRE,extern=tabx(),heapty={'srt':'int','sri':'int'})
def units(): return [unit('findpts.c',True,FD),unit('findpts_local.c',False,LD),dict(file='src/findpts.c',name='findpts.c[bits]',specs=SB,bits=True,prelude=BITS),masku(),tabu()]
