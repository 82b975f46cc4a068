"""contracts of sort_imp.h (C08, C09).  A counting pass is described by the digits kf k of its n items: item k goes to
position ps kf n k = (number of items with a smaller digit) + (number of earlier items with the same digit)."""
import re
UM='4294967295'
PRE='''
  predicate go int
  axiom go_: forall m. go m
  function at_ (b s k: int) : int
  axiom at_def: forall b s k. at_ b s k = b + k*s
  let ghost atmon (b s: int) requires { 0 < s } ensures { forall k l. k < l -> at_ b s k < at_ b s l } ensures { forall k. at_ b s (k+1) = at_ b s k + s } ensures { at_ b s 0 = b }
   = assert { forall k l. k < l -> k*s < l*s by (l-k)*s > 0 }
  (* scratch memory of records reused as a plain array of unsigned: its address in that view *)
  val function ad (p: int) : int
  function kd (x sh: int) : int
  predicate goz int
  axiom goz_: forall m. goz m
  axiom kd_def: forall x sh [kd x sh, goz x]. kd x sh = mod (div x (P.power 2 sh)) 256
  let ghost kd_at (x sh: int) ensures { kd x sh = mod (div x (P.power 2 sh)) 256 /\\ 0 <= kd x sh < 256 } = assert { goz x }
  let ghost mulmono (i n s: int) requires { 0 <= i <= n /\\ 0 <= s } ensures { 0 <= i*s <= n*s } = assert { (n-i)*s >= 0 }
  (* eq_ kf v m: items k<m with digit v;  lt_ kf v m: items k<m with a digit below v *)
  function eq_ (kf: int -> int) (v m: int) : int
  axiom eq_nil: forall kf v m. m <= 0 -> eq_ kf v m = 0
  axiom eq_snoc: forall kf v m [eq_ kf v m, go m]. m > 0 -> eq_ kf v m = eq_ kf v (m-1) + (if kf (m-1) = v then 1 else 0)
  function lt_ (kf: int -> int) (v m: int) : int
  axiom lt_nil: forall kf v m. m <= 0 -> lt_ kf v m = 0
  axiom lt_snoc: forall kf v m [lt_ kf v m, go m]. m > 0 -> lt_ kf v m = lt_ kf v (m-1) + (if kf (m-1) < v then 1 else 0)
  function ps (kf: int -> int) (n k: int) : int
  axiom ps_def: forall kf n k. ps kf n k = lt_ kf (kf k) n + eq_ kf (kf k) k
  let rec ghost eq_mono (kf: int -> int) (v m1 m2: int) requires { 0 <= m1 <= m2 } ensures { 0 <= eq_ kf v m1 <= eq_ kf v m2 } variant { m2 }
    = if m2 > m1 then begin eq_mono kf v m1 (m2-1); assert { go m2 } end else if m2 > 0 then begin eq_mono kf v (m1-1) (m2-1); assert { go m2 } end
  let rec ghost lt_step (kf: int -> int) (v w m: int) requires { 0 <= m /\\ v < w } ensures { 0 <= lt_ kf v m /\\ lt_ kf v m + eq_ kf v m <= lt_ kf w m } variant { m }
    = if m > 0 then begin lt_step kf v w (m-1); assert { go m } end
  let rec ghost lt_next (kf: int -> int) (v m: int) requires { 0 <= m } ensures { lt_ kf (v+1) m = lt_ kf v m + eq_ kf v m } variant { m }
    = if m > 0 then begin lt_next kf v (m-1); assert { go m } end
  let rec ghost lt_low (kf: int -> int) (v m: int) requires { forall k. 0<=k<m -> v <= kf k } ensures { lt_ kf v m = 0 } variant { m }
    = if m > 0 then begin lt_low kf v (m-1); assert { go m } end
  let rec ghost cnt_tot (kf: int -> int) (v m: int) requires { 0 <= m } ensures { lt_ kf v m + eq_ kf v m <= m /\\ 0 <= lt_ kf v m /\\ 0 <= eq_ kf v m } variant { m }
    = if m > 0 then begin cnt_tot kf v (m-1); assert { go m } end
  (* the n positions are distinct and lie in 0..n-1, and are ordered by digit, then by index *)
  let ghost ps_ord (kf: int -> int) (n k l: int) requires { 0<=k<n /\\ 0<=l<n /\\ (kf k < kf l \\/ (kf k = kf l /\\ k < l)) } ensures { 0 <= ps kf n k < ps kf n l < n }
    = eq_mono kf (kf k) (k+1) n; eq_mono kf (kf l) (l+1) n; assert { go (k+1) /\\ go (l+1) }; if kf k = kf l then eq_mono kf (kf k) (k+1) l else lt_step kf (kf k) (kf l) n; cnt_tot kf (kf k) n; cnt_tot kf (kf l) n; eq_mono kf (kf k) k (k+1); eq_mono kf (kf l) 0 l
  let ghost ps_in (kf: int -> int) (n k: int) requires { 0<=k<n } ensures { 0 <= ps kf n k < n }
    = eq_mono kf (kf k) (k+1) n; cnt_tot kf (kf k) n; eq_mono kf (kf k) 0 k; assert { go (k+1) }
  let ghost ps_inj (kf: int -> int) (n k: int) requires { 0<=k<n } ensures { forall l. 0<=l<n -> l<>k -> ps kf n l <> ps kf n k }
    = for l = 0 to n-1 do invariant { forall j. 0<=j<l -> j<>k -> ps kf n j <> ps kf n k }
        if l <> k then begin if kf k < kf l || (kf k = kf l && k < l) then ps_ord kf n k l else ps_ord kf n l k end done
  let ghost ps_perm (kf: int -> int) (n: int) ensures { forall k. 0<=k<n -> 0 <= ps kf n k < n } ensures { forall k l. 0<=k<n -> 0<=l<n -> k<>l -> ps kf n k <> ps kf n l }
    = for k = 0 to n-1 do invariant { forall j. 0<=j<k -> 0 <= ps kf n j < n } invariant { forall j l. 0<=j<k -> 0<=l<n -> j<>l -> ps kf n j <> ps kf n l } ps_in kf n k; ps_inj kf n k done
  (* the partial sums of a table *)
  function psum (h: map int int) (c m: int) : int
  axiom psum_nil: forall h c m. m <= 0 -> psum h c m = 0
  axiom psum_snoc: forall h c m [psum h c m, go m]. m > 0 -> psum h c m = psum h c (m-1) + h[c+(m-1)]
  let rec ghost psum_mono (h: map int int) (c m1 m2: int) requires { 0 <= m1 <= m2 /\\ forall a. c <= a < c+m2 -> 0 <= h[a] } ensures { 0 <= psum h c m1 <= psum h c m2 } variant { m2 }
    = if m2 > m1 then begin psum_mono h c m1 (m2-1); assert { go m2 } end else if m2 > 0 then begin psum_mono h c (m1-1) (m2-1); assert { go m2 } end
  let rec ghost psum_ext (h g: map int int) (c d m: int) requires { forall p. c<=p<c+m -> h[p] = g[p+(d-c)] } ensures { psum h c m = psum g d m } variant { m }
    = if m > 0 then begin psum_ext h g c d (m-1); assert { go m } end
'''
S={'ui':('u32',4),'ull':('w64',8)}
KEY=lambda x: f'mod (div ({x}) (P.power 2 sh)) 256'
def OFF(i): return f'forall q. off<=q<off+256 -> @u32[q]=lt_ kf (q-off) n+eq_ kf (q-off) {i}'
def specs(sf):
    h,z=S[sf]; D=z; sp={}
    def nm(x): return x+'_'+sf
    GPA='(ghost kf: int -> int) (ghost st: int)'
    sp[nm('radix_offsets')]=dict(props=['C08','C09'],requires=['forall a. c<=a<c+256 -> 0<=@u32[a]','psum @u32 c 256<='+UM],w={'u32':'c<=a<c+256'},ensures=['forall q. c<=q<c+256 -> @u32[q]=psum @@u32 c (q-c)'],
      loops={1:dict(inv=['0<=j<256','mod j 4=0','c=c_0+j','sum=psum @@u32 c_0 j','forall q. c_0<=q<c_0+j -> @u32[q]=psum @@u32 c_0 (q-c_0)','forall q. c_0+j<=q<c_0+256 -> @u32[q]=@@u32[q]'],var='256-j')},
      ghost={'entry':['let ghost ref j = 0'],('enter',1):['assert { j+4<=256 }','assert { go (j+1) /\\ go (j+2) /\\ go (j+3) /\\ go (j+4) }','assert { psum @@u32 c_0 (j+1)=sum+@u32[c] /\\ psum @@u32 c_0 (j+2)=sum+@u32[c]+@u32[c+1] /\\ psum @@u32 c_0 (j+3)=sum+@u32[c]+@u32[c+1]+@u32[c+2] /\\ psum @@u32 c_0 (j+4)=sum+@u32[c]+@u32[c+1]+@u32[c+2]+@u32[c+3] }',
         'psum_mono h0_u32 c_0 (j+4) 256','psum_mono h0_u32 c_0 (j+3) (j+4)','psum_mono h0_u32 c_0 (j+2) (j+3)','psum_mono h0_u32 c_0 (j+1) (j+2)','psum_mono h0_u32 c_0 j (j+1)'],('end',1):['j <- j+4']})
    def pas(name,req,w,r,res,keyat,loopinv,var,extra=[],gp='',cur='',decl={},entry=[],props=('C08',),n='n',pre='',outdone=None,after=[],ens=None):
        sp[nm(name)]=dict(prelude=pre,ghostparams='(ghost kf: int -> int) '+gp,requires=[f'{n}>=1',f'{n}<='+UM,'sh<=%d'%(8*(D-1)),f'forall k. 0<=k<{n} -> kf k=kd ({keyat("@","k").replace("_0","")}) sh',OFF('0').replace(' n+',f' {n}+')]+req,w=dict(w,u32=(w['u32']+' \\/ ' if 'u32' in w else '')+'off<=a<off+256'),r=r,
          ensures=[f'forall k. 0<=k<{n} -> {x}' for x in (ens or res)],props=list(props),
          loops={1:dict(inv=['0<=c<%s'%n,OFF('c').replace(' n+',f' {n}+')]+[f'forall k. 0<=k<c -> {x}' for x in (outdone or res)]+loopinv,var=f'{n}-c')},
          ghost={'entry':['let ghost ref c = 0']+(['atmon vA st'] if 'st: int' in gp else [])+[f'ps_perm kf {n}']+entry,('enter',1):['assert { kf c=kd (%s) sh }'%keyat('@@','c'),'kd_at (%s) sh'%keyat('@@','c'),'assert { 0<=kf c<256 }',f'assert {{ @u32[off+kf c]=ps kf {n} c }}','let ghost hb = @u32']+extra+[f'assert {{ {keyat("@","c")}={keyat("@@","c")} }}',f'assert {{ {cur}={keyat("@@","c")} }}',f'assert {{ kf c=kd ({cur}) sh }}',f'kd_at ({cur}) sh'],('end',1):['c <- c+1']+[f'assert {{ forall k. 0<=k<c -> {x} }}' for x in (outdone or res)],('endbody',1):['assert { off<=off+kf c<off+256 /\\ @u32[off+kf c]=hb[off+kf c]+1 }','assert { forall q. off<=q<off+256 -> q<>off+kf c -> @u32[q]=hb[q] }','assert { go (c+1) }','assert { forall v. eq_ kf v (c+1)=eq_ kf v c+(if kf c=v then 1 else 0) }',f'assert {{ forall k. 0<=k<c -> ps kf {n} k<>ps kf {n} c }}',f'assert {{ forall k. 0<=k<c -> {(outdone or res)[0]} }}',f'assert {{ {re.sub(r'\bk\b','c',(outdone or res)[0])} }}',f'assert {{ forall k. k=c -> {(outdone or res)[0]} }}'],('after',1):['assert { c=%s }'%n]+after,**{('decl',a):b for a,b in decl.items()}})
    dis=lambda a,la,b,lb: f'{a}+{la}<={b} \\/ {b}+{lb}<={a}'
    EL=lambda k,A='vA',st='st': f'{A}+{k}*{st}'
    SR=[f'stride={z}*st','st>=1']
    AR=lambda n: f'exists k. 0<=k<{n} /\\ a=at_ vA st k'
    # passv
    alias=[] if h!='u32' else [dis('off','256','vout_','n').replace('vout_','out'),f'forall k. 0<=k<n -> at_ vA st k<off \\/ off+256<=at_ vA st k']
    pas('radix_passv',SR+['end_=at_ vA st n','forall k. 0<=k<n -> at_ vA st k<out \\/ out+n<=at_ vA st k']+alias,{h:'out<=a<out+n'},{h:AR('n')},[f'@{h}[out+ps kf n k]=@@{h}[at_ vA st k]'],lambda a,k: f'{a}{h}[at_ vA_0 st ({k})]',
        ['vA=at_ vA_0 st c'],'',[f'assert {{ forall k. 0<=k<n -> @{h}[at_ vA_0 st k]=@@{h}[at_ vA_0 st k] }}','assert { vA+st=at_ vA_0 st (c+1) }'],'(ghost st: int) (ghost n: int)',outdone=[f'@{h}[out+ps kf n k]=@@{h}[at_ vA_0 st k]'],cur=f'@{h}[vA]')
    sv,si=f'sort_data_{sf}_v',f'sort_data_{sf}_i'
    ud=[dis('off','256','out','n')]
    elem=lambda lo,n: f'forall k. 0<=k<n -> at_ vA st k<{lo} \\/ {lo}+{n}<=at_ vA st k'
    inv0=['vA=at_ vA_0 st c','i=c']
    stepA=['assert { vA+st=at_ vA_0 st (c+1) }']
    ka=lambda a,k: f'{a}{h}[at_ vA_0 st ({k})]'
    u=h=='u32'
    res2=lambda a: [f'@{sv}[out+ps kf n k]=@@{h}[{a}]',f'@{si}[out+ps kf n k]=k']
    pas('radix_passp0_b',SR+([elem('off','256')] if u else []),{sv:'out<=a<out+n',si:'out<=a<out+n'},{h:AR('n')},res2('at_ vA st k'),ka,inv0,'',stepA,'(ghost st: int)',outdone=res2('at_ vA_0 st k'),cur=f'@{h}[vA]',props=('C09',))
    IX='@@u32[at_ p 1 k]'; IX0='@@u32[at_ p_0 1 k]'
    pidx=['n*stride<='+UM,'forall k. 0<=k<n -> 0<=@u32[at_ p 1 k]<n',dis('off','256','p','n')]
    rp={'u32':'p<=a<p+n'+(' \\/ '+AR('n') if u else '')}
    if not u: rp[h]=AR('n')
    res3=lambda p: [f'@{sv}[out+ps kf n k]=@@{h}[at_ vA st (@@u32[at_ {p} 1 k])]',f'@{si}[out+ps kf n k]=@@u32[at_ {p} 1 k]']
    kp=lambda a,k: f'{a}{h}[at_ vA st ({a}u32[at_ p_0 1 ({k})])]'
    sj=f'@u32[p]'
    stepP=['assert { p+1=at_ p_0 1 (c+1) }','assert { p=at_ p_0 1 c }','assert { @u32[p]=@@u32[at_ p_0 1 c] /\\ 0<=@u32[p]<n }','assert { at_ vA st @u32[p]=vA+@u32[p]*st }','assert { @u32[p]*stride=%d*(@u32[p]*st) }'%z,'mulmono @u32[p] n stride','assert { div stride %d=st /\\ @u32[p]*div stride %d=@u32[p]*st }'%(z,z)]
    pas('radix_passp_b',SR+pidx+([elem('off','256')] if u else []),{sv:'out<=a<out+n',si:'out<=a<out+n'},rp,res3('p'),kp,['p=at_ p_0 1 c'],'',stepP,'(ghost st: int)',entry=['atmon p 1'],decl={'v':['assert { v=@@%s[at_ vA st @@u32[at_ p_0 1 c]] }'%h,'kd_at v sh']},outdone=res3('p_0'),cur=f'@{h}[at_ vA st @u32[p]]',props=('C09',))
    km=lambda a,k: f'{a}{sv}[at_ src_0 1 ({k})]'
    srcd=['end_=at_ src 1 n',dis('src','n','out','n')]
    resm=lambda q: [f'@{sv}[out+ps kf n k]=@@{sv}[at_ {q} 1 k]',f'@{si}[out+ps kf n k]=@@{si}[at_ {q} 1 k]']
    stepM=[f'assert {{ src=at_ src_0 1 c /\\ src+1=at_ src_0 1 (c+1) }}',f'assert {{ @{sv}[src]=@@{sv}[at_ src_0 1 c] /\\ @{si}[src]=@@{si}[at_ src_0 1 c] }}']
    pas('radix_passp_m',srcd,{sv:'out<=a<out+n',si:'out<=a<out+n'},{sv:'src<=a<src+n',si:'src<=a<src+n'},resm('src'),km,['src=at_ src_0 1 c'],'',stepM,'(ghost n: int)',entry=['atmon src 1'],outdone=resm('src_0'),cur=f'@{sv}[src]',props=('C09',))
    pas('radix_passp_e',['end_=at_ src 1 n']+ud,{'u32':'out<=a<out+n'},{sv:'src<=a<src+n',si:'src<=a<src+n'},[f'@u32[out+ps kf n k]=@@{si}[at_ src 1 k]'],km,['src=at_ src_0 1 c'],'',stepM,'(ghost n: int)',entry=['atmon src 1'],outdone=[f'@u32[out+ps kf n k]=@@{si}[at_ src_0 1 k]'],cur=f'@{sv}[src]',props=('C09',))
    pas('radix_passp0_be',SR+ud+([elem('off','256'),elem('out','n')] if u else []),{'u32':'out<=a<out+n'},{h:AR('n')},['@u32[out+ps kf n k]=k'],ka,inv0,'',stepA,'(ghost st: int)',outdone=['@u32[out+ps kf n k]=k'],cur=f'@{h}[vA]',props=('C09',))
    ub=lambda x: [dis(x,'n','off','256'),dis(x,'n','p','n')]
    pas('radix_passp_be',SR+pidx+ub('(ad work)')+([elem('off','256'),elem('p','n'),elem('(ad work)','n')] if u else []),{'u32':'p<=a<p+n \\/ ad work<=a<ad work+n'},{h:AR('n')},['@u32[at_ p 1 (ps kf n k)]=@@u32[at_ p 1 k]'],
      lambda a,k: f'{a}{h}[at_ vA st ({a}u32[at_ p_0 1 ({k})])]'.replace('p_0','p'),['q=at_ p 1 c','forall x. p<=x<p+n -> @u32[x]=@@u32[x]'],'',[x.replace('p_0','p').replace('p=','q=').replace('p+1=','q+1=').replace('@u32[p]','@u32[q]') for x in stepP],'(ghost st: int)',entry=['atmon p 1'],outdone=['@u32[ad work+ps kf n k]=@@u32[at_ p 1 k]'],cur=f'@{h}[at_ vA st @u32[q]]',
      decl={'v':['assert { v=@@%s[at_ vA st @@u32[at_ p 1 c]] }'%h,'kd_at v sh']},props=('C09',))
    sp[nm('radix_passp_be')]['fieldaddr']={f'sort_data_{sf}_i':'ad $'}
    # counting
    row=lambda d,n: f'forall q. count+{256*d}<=q<count+{256*d+256} -> @u32[q]=eq_ (kf {d}) (q-(count+{256*d})) {n}'
    ax=''.join(f'  axiom bor_{d}: forall x y. kd (bor x y) {8*d} = 0 -> kd x {8*d} = 0 /\\ kd y {8*d} = 0\n' for d in range(D))
    pw='  let ghost pw () ensures { '+' /\\ '.join(f'P.power 2 {8*d} = {256**d}' for d in range(D))+' }\n   = assert { P.power 2 0 = 1 }; '+'; '.join(f'assert {{ P.power 2 {k} = {2**k} }}' for k in range(1,8*D-7))+'\n'
    kds='  let ghost kds (x: int) ensures { '+' /\\ '.join(f'kd x {8*d} = mod (div x {256**d}) 256' for d in range(D))+' }\n   = pw (); '+'; '.join(f'kd_at x {8*d}' for d in range(D))+'\n'
    dd='  let ghost dd (x: int) ensures { '+' /\\ '.join(f'div (div x {256**d}) 256 = div x {256**(d+1)}' for d in range(D))+' } = ()\n'
    sp[nm('radix_count')]=dict(prelude=ax+pw+kds+dd,ghostparams='(ghost kf: int -> int -> int) (ghost st: int) (ghost n: int)',props=['C08','C09'],
      requires=['n>=1','n<='+UM]+SR+['end_=at_ vA st n']+[f'forall k. 0<=k<n -> kf {d} k=kd @{h}[at_ vA st k] {8*d}' for d in range(D)]+([elem('count',256*D)] if h=='u32' else []),
      w={'u32':f'count<=a<count+{256*D}'},r={h:AR('n')},ensures=[row(d,'n') for d in range(D)]+[f'kd result {8*d}=0 -> forall k. 0<=k<n -> kf {d} k=0' for d in range(D)],
      loops={1:dict(inv=['0<=c<n','vA=at_ vA_0 st c']+[row(d,'c') for d in range(D)]+[f'kd bitorkey {8*d}=0 -> forall k. 0<=k<c -> kf {d} k=0' for d in range(D)],var='n-c')},
      ghost={'entry':['let ghost ref c = 0','atmon vA st'],('enter',1):[f'cnt_tot (kf {d}) (kf {d} c) c' for d in range(D)]+['assert { vA+st=at_ vA_0 st (c+1) }',f'assert {{ @{h}[vA]=@@{h}[at_ vA_0 st c] }}','let ghost x0 = @%s[vA]'%h,'let ghost hb = @u32','kds x0','dd x0','assert { go (c+1) }']+[f'assert {{ kf {d} c=kd x0 {8*d} }}' for d in range(D)]+[f'assert {{ 0<=kf {d} c<256 }}' for d in range(D)],
        ('endbody',1):[f'assert {{ forall q. count+{256*d}<=q<count+{256*d+256} -> @u32[q]=hb[q]+(if q=count+{256*d}+kf {d} c then 1 else 0) }}' for d in range(D)]+[f'assert {{ forall v. eq_ (kf {d}) v (c+1)=eq_ (kf {d}) v c+(if kf {d} c=v then 1 else 0) }}' for d in range(D)],
        ('end',1):['c <- c+1'],('after',1):['assert { c=n }']})
    return sp
def units():
    return [dict(file='src/sort.c',name='sort_imp.h['+sf+']',src='src/sort_imp.h',specs=specs(sf),prelude=PRE,bits=True) for sf in S]
