"""C20: evaluation of a field at located points."""
PRE="""
  function bp (base i stride: int) : int   (* address of the i-th entry, in entries; the stride is in bytes *)
"""
def lu(D):
    ty=['double *','unsigned int','const double *','unsigned int','unsigned int','const double *',f'struct findpts_el_data_{D} *']
    LG=('ei','er','ef','eb','eo')
    X={f'gslib_findpts_el_eval_{D}':dict(params=['out','ost','r','rst','pn','in_','fd'],types=ty,take=list(range(7)),ret='void',w={h:'true' for h in LG},ghostparams='(ghost g: int) (ghost ost0: int) (ghost rst0: int)',
        requires=['0<pn<=@findpts_el_data_%d_npt_max[fd]'%D,'ost=ost0','rst=rst0'],
        ensures=['forall k. g<=k<g+pn -> @ei[k]=in_ /\\ @er[k]=r /\\ @ef[k]=fd /\\ @eb[k]=g /\\ @eo[k]=out']+[f'forall k. not (g<=k<g+pn) -> '+' /\\ '.join(f'@{h}[k]=@@{h}[k]' for h in LG)],
        why='findpts_el_eval: its own contract is below; here: for the points with numbers g, g+1, .. of the caller, which element values, coordinates and output place the call uses')}
    FED=f'sub_findpts_local_data_{D}_fed fd'; OS='(div out_stride 8)'; RS='(div r_stride 8)'; ES='(div el_stride 4)'
    EL=lambda t:f'@u32[el_base+{t}*{ES}]'
    IN=lambda t:f'in_+{EL(t)}*@findpts_local_data_{D}_ntot[fd]'
    done=lambda n:[f'forall k. 0<=k<{n} -> @ei[k]={IN("k")}',f'forall k. 0<=k<{n} -> 0<=@eb[k]<=k /\\ @er[k]=r_base+@eb[k]*{RS} /\\ @eo[k]=out_base+@eb[k]*{OS} /\\ @ef[k]={FED}']
    fr=lambda n:f'forall k. (k<0 \\/ k>={n}) -> '+' /\\ '.join(f'@{h}[k]=@@{h}[k]' for h in LG)
    S={f'gslib_findptsms_local_eval_{D}':dict(callghost={f'gslib_findpts_el_eval_{D}':'p out_stride r_stride'},
        requires=['mod out_stride 8=0','mod r_stride 8=0','mod el_stride 4=0','1<=@findpts_el_data_%d_npt_max[%s]'%(D,FED)],
        ghost={('begin',1):['let ghost p1 = p'],('after',3):['assert { q > p }'],('after',2):['assert { p > p1 }']},w={h:'true' for h in LG},ensures=done('npt')+[fr('npt')],
        loops={1:dict(inv=['0<=p<=npt',fr('p')]+done('p'),var='npt-p'),
               2:dict(inv=['0<=p1<=p<npt',EL('p')+'=el',fr('p')]+done('p'),var='npt-p'),
               3:dict(inv=['p<=q<=npt','i=q-p','0<=i<=npt_max',f'forall k. p<=k<q -> {EL("k")}=el'],var='npt-q')})}
    return dict(file='src/findpts_local.c',name=f'findpts_local.c[{D}]',specs=S,prelude=PRE,extern=X,heapty={h:'int' for h in LG})

import c16
UM='4294967295'
def ten(D):
    T={'gslib_tensor_mxm':(['vC','nc','vA','na','vB','nb'],['double *','unsigned int','const double *','unsigned int','const double *','unsigned int']),
       'gslib_tensor_mtxv':(['y','ny','vA','x','nx'],['double *','unsigned int','const double *','const double *','unsigned int']),
       'gslib_tensor_dot':(['va','b','n'],['const double *','const double *','unsigned int'])}
    X={}
    for f,(p,t) in T.items():
        if D==2 and f=='gslib_tensor_mtxv': continue
        c=c16.SPEC[f]; X[f]=dict({k:c[k] for k in('requires','ensures','w','r') if k in c},params=p,types=t,ret='double' if f.endswith('dot') else 'void',take=list(range(len(p))),why='proved for all inputs under C16 (tensor.c)')
    # the evaluator stored for a direction writes the values of its basis functions; data and its size are what the setup stored
    X['fp_lagrange_fun_at']=dict(params=['fn','p','data','n','d','x'],types=['lagrange_fun *','double *','double *','unsigned int','int','double'],requires=['d=0','p+n<=data \\/ data+lsz fn data n<=p'],
        w={'f64':'p<=a<p+n \\/ data<=a<data+lsz fn data n'},ensures=['forall q. p<=q<p+n -> @f64[q]=(bas fn data n x)[q-p]'],
        why='lagrange_fun: the values at x of the n basis functions of the evaluator and data stored for the direction (C22); it writes nothing but its output and its own data')
    return X
EPRE=c16.PRE+r"""
  (* values at x of the basis functions of one direction *)
  function bas (fn data n: int) (x: real) : map int real
  function lsz (fn data n: int) : int
  let ghost atlt (b s i: int) requires { 0 <= s } ensures { forall k. k < i -> at_ b s k + s <= at_ b s i }
   = assert { forall k. k < i -> ((i-k-1)*s >= 0 /\ (i-k)*s = (i-k-1)*s + s) }; assert { forall k. i*s - k*s = (i-k)*s }
  let ghost atsuc (b s i: int) ensures { at_ b s (i+1) = at_ b s i + s /\ at_ b s 0 = b } = ()
  let ghost atin (b s i n: int) requires { 0 <= i < n /\ 0 <= s } ensures { b <= at_ b s i /\ at_ b s i + s <= b + n*s /\ 0 <= i*s <= n*s /\ b+i*s = at_ b s i } = assert { (n-i-1)*s >= 0 }; assert { i*s >= 0 }; assert { n*s = (n-i-1)*s + i*s + s }
  let ghost atin2 (b s i n: int) requires { 0 <= i < s } ensures { forall j. 0 <= j < n -> b <= at_ (b+i) s j < b+s*n }
   = assert { forall j. 0 <= j < n -> ((n-j-1)*s >= 0 /\ j*s >= 0 /\ n*s = (n-j-1)*s + j*s + s) }
  let ghost atall (b s n: int) requires { 0 <= s } ensures { forall k. 0 <= k < n -> b <= at_ b s k /\ at_ b s k + s <= b + n*s }
   = assert { forall k. 0 <= k < n -> ((n-k-1)*s >= 0 /\ k*s >= 0 /\ n*s = (n-k-1)*s + k*s + s) }
  (* sum over j<m of h[b+j*s]*w[j] *)
  function wsum (h: map int real) (b s: int) (w: map int real) (m: int) : real
  axiom wsum_nil: forall h b s w m. m <= 0 -> wsum h b s w m = 0.0
  axiom wsum_snoc: forall h b s w m. m > 0 -> wsum h b s w m = wsum h b s w (m-1) +. mulr h[at_ b s (m-1)] w[m-1]
  let rec ghost to_wsum (h0 h: map int real) (b s x: int) (w: map int real) (m: int)
    requires { forall j. 0 <= j < m -> h[at_ b s j] = h0[at_ b s j] } requires { forall q. x <= q < x+m -> h[q] = w[q-x] }
    ensures { dotp h b s x 1 m = wsum h0 b s w m } variant { m } = assert { at_ x 1 (m-1) = x+(m-1) }; if m > 0 then to_wsum h0 h b s x w (m-1)
  (* u is an nr x ns nodal field at b: sum over i<m of w0[i] * (sum over j<ns of u[i,j]*w1[j]) *)
  function ev2 (h: map int real) (b nr ns: int) (w0 w1: map int real) (m: int) : real
  axiom ev2_nil: forall h b nr ns w0 w1 m. m <= 0 -> ev2 h b nr ns w0 w1 m = 0.0
  axiom ev2_snoc: forall h b nr ns w0 w1 m. m > 0 -> ev2 h b nr ns w0 w1 m = ev2 h b nr ns w0 w1 (m-1) +. mulr w0[m-1] (wsum h (b+(m-1)) nr w1 ns)
  let rec ghost to_ev2 (h0 h: map int real) (b nr ns wt sl: int) (w0 w1: map int real) (m: int)
    requires { forall q. wt <= q < wt+m -> h[q] = w0[q-wt] } requires { forall q. sl <= q < sl+m -> h[q] = wsum h0 (b+(q-sl)) nr w1 ns }
    ensures { dotp h wt 1 sl 1 m = ev2 h0 b nr ns w0 w1 m } variant { m } = assert { at_ wt 1 (m-1) = wt+(m-1) /\ at_ sl 1 (m-1) = sl+(m-1) }; if m > 0 then to_ev2 h0 h b nr ns wt sl w0 w1 (m-1)
"""
def ee2():
    D=2; st='findpts_el_data_2'; N=lambda d:f'@@u32[sub_{st}_n fd+{d}]'; F=lambda d:f'@@ptr[sub_{st}_lag fd+{d}]'; L=lambda d:f'@@ptr[sub_{st}_lag_data fd+{d}]'
    W=f'@@{st}_work[fd]'; OS='(div out_stride 8)'; RS='(div r_stride 8)'
    nr,ns=N(0),N(1); WT=W; WS=f'({W}+{nr}*pn)'; SL=f'({W}+{nr}*pn+{ns}*pn)'; TOP=f'({W}+{nr}*pn+{ns}*pn+{nr}*pn)'
    B=lambda d,k:f'(bas {F(d)} {L(d)} {N(d)} @@f64[at_ r_base {RS} {k}+{d}])'
    def off(b,l): return f'({TOP}<={b} \\/ {b}+{l}<={W})'
    req=['mod out_stride 8=0','mod r_stride 8=0','0<=pn',f'{OS}>=1 \\/ pn<=1',f'1<={nr}',f'1<={ns}',f'{nr}*pn+{ns}*pn+{nr}*pn<='+UM,f'{nr}*{ns}<='+UM,off('in_',f'{nr}*{ns}')]
    for d in(0,1):
        LS=f'lsz {F(d)} {L(d)} {N(d)}'
        req+=[f'0<={LS}',off(L(d),LS),f'in_+{nr}*{ns}<={L(d)} \\/ {L(d)}+{LS}<=in_']
        req+=[f'forall k. 0<=k<pn -> (at_ r_base {RS} k+1<{L(d)} \\/ {L(d)}+{LS}<=at_ r_base {RS} k)']
    req+=[f'forall k. 0<=k<pn -> (at_ r_base {RS} k+1<{W} \\/ {TOP}<=at_ r_base {RS} k)',f'forall k. 0<=k<pn -> (at_ out_base {OS} k<{W} \\/ {TOP}<=at_ out_base {OS} k)']
    w={'f64':f'{W}<=a<{TOP} \\/ '+' \\/ '.join(f'{L(d)}<=a<{L(d)}+lsz {F(d)} {L(d)} {N(d)}' for d in(0,1))+f' \\/ (exists k. 0<=k<pn /\\ a=at_ out_base {OS} k)'}
    w={'f64':w['f64'].replace('@@','@')}
    B_=lambda d,k:f'(bas f{d} d{d} n{"rs"[d]} @@f64[at_ r_base rs {k}+{d}])'
    wt=lambda n,h='@f64':[f'forall k q. 0<=k<{n} -> at_ {b} {z} k<=q<at_ {b} {z} k+{z} -> {h}[q]={B_(d,"k")}[q-at_ {b} {z} k]' for d,b,z in((0,'wtr','nr'),(1,'wts','ns'))]
    keepin=['forall q. in_<=q<in_+nr*ns -> @f64[q]=@@f64[q]','forall k. 0<=k<pn -> @f64[at_ r_base rs k]=@@f64[at_ r_base rs k] /\\ @f64[at_ r_base rs k+1]=@@f64[at_ r_base rs k+1]']
    V=lambda k:f'ev2 @@f64 in_ {nr} {ns} {B(0,k)} {B(1,k)} {nr}'
    V_=lambda k:f'ev2 @@f64 in_ nr ns {B_(0,k)} {B_(1,k)} nr'
    L0=[f'let ghost {v}{d} = {x(d)}' for v,x in(('f',F),('d',L)) for d in(0,1)]
    return {'gslib_findpts_el_eval_2':dict(requires=[x.replace('@@','@') for x in req],w=w,ensures=[f'forall k. 0<=k<pn -> @f64[at_ out_base {OS} k]={V("k")}'],
      loops={1:dict(inv=['0<=i<=pn','r=at_ r_base rs i']+wt('i')+keepin,var='pn-i'),
             2:dict(inv=['0<=i<=pn','out=at_ out_base os i','forall q. wtr<=q<slice+nr*pn -> @f64[q]=h2[q]',f'forall k. 0<=k<i -> @f64[at_ out_base os k]={V_("k")}'],var='pn-i')},
      ghost={'entry':[f'let ghost os = pure {{ {OS} }}',f'let ghost rs = pure {{ {RS} }}']+L0,
             ('before',1):['atsuc r_base rs 0'],
             ('enter',1):['atin wtr nr i pn','atin wts ns i pn','atlt wtr nr i','atlt wts ns i','atsuc r_base rs i'],
             ('beforecall','gslib_tensor_mxm',1):['let ghost h1 = @f64','assert { i=pn }','assert { nr*pn>=0 /\\ ns*pn>=0 }'],
             ('before',2):['let ghost h2 = @f64','atall wtr nr pn','atall wts ns pn','atall slice nr pn','atsuc out_base os 0']+[f'assert {{ {x} }}' for x in wt('pn','h2')]+[
                'for k_ = 0 to pn-1 do invariant { forall k q. 0<=k<k_ -> at_ slice nr k<=q<at_ slice nr k+nr -> h2[q]=wsum @@f64 (in_+(q-at_ slice nr k)) nr '+B_(1,'k')+' ns } row slice k_ nr; atin wts ns k_ pn; atin slice nr k_ pn; for i_ = 0 to nr-1 do invariant { forall q. at_ slice nr k_<=q<at_ slice nr k_+i_ -> h2[q]=wsum @@f64 (in_+(q-at_ slice nr k_)) nr '+B_(1,'k_')+' ns } atin2 in_ nr i_ ns; assert { let q = at_ slice nr k_+i_ in h2[q]=dotp h1 (in_+i_) nr (at_ wts ns k_) 1 ns }; to_wsum @@f64 h1 (in_+i_) nr (at_ wts ns k_) (pure { '+B_(1,'k_')+' }) ns done done'],
             ('enter',2):['atin wtr nr i pn','atin slice nr i pn','atsuc out_base os i','if os >= 1 then atlt out_base os i'],
             ('aftercall','gslib_tensor_dot',1):['to_ev2 h0_f64 @f64 in_ nr ns (at_ wtr nr i) (at_ slice nr i) (pure { '+B_(0,'i')+' }) (pure { '+B_(1,'i')+' }) nr'],
             })}
EPRE3=EPRE+c16.P2[:c16.P2.index("  let rec ghost to_r3")].replace(c16.P2[c16.P2.index("  function r3"):c16.P2.index("  let rec ghost to_r2")],'')
E3L=r"""
  (* u is an nr x ns x nt nodal field at b: sum over j<m of w1[j] * (sum over i<nr of w0[i] * (sum over l<nt of u[i,j,l]*w2[l])) *)
  function ev3i (h: map int real) (c nr ns nt: int) (w0 w2: map int real) (m: int) : real
  axiom ev3i_nil: forall h c nr ns nt w0 w2 m. m <= 0 -> ev3i h c nr ns nt w0 w2 m = 0.0
  axiom ev3i_snoc: forall h c nr ns nt w0 w2 m. m > 0 -> ev3i h c nr ns nt w0 w2 m = ev3i h c nr ns nt w0 w2 (m-1) +. mulr (wsum h (c+(m-1)) (nr*ns) w2 nt) w0[m-1]
  function ev3 (h: map int real) (b nr ns nt: int) (w0 w1 w2: map int real) (m: int) : real
  axiom ev3_nil: forall h b nr ns nt w0 w1 w2 m. m <= 0 -> ev3 h b nr ns nt w0 w1 w2 m = 0.0
  axiom ev3_snoc: forall h b nr ns nt w0 w1 w2 m. m > 0 -> ev3 h b nr ns nt w0 w1 w2 m = ev3 h b nr ns nt w0 w1 w2 (m-1) +. mulr (ev3i h (at_ b nr (m-1)) nr ns nt w0 w2 nr) w1[m-1]
  predicate rok (h h0: map int real) (b s x: int) (w: map int real) (nt: int)
  val ghost rokd (h h0: map int real) (b s x: int) (w: map int real) (nt: int): unit ensures { rok h h0 b s x w nt <-> forall q. b<=q<b+s -> h[q]=wsum h0 (x+(q-b)) s w nt }
  predicate vok (v: real) (h0: map int real) (x nr ns nt f0 d0 f1 d1 f2 d2 rb rs k: int)
  axiom vokd: forall v h0 x nr ns nt f0 d0 f1 d1 f2 d2 rb rs k. vok v h0 x nr ns nt f0 d0 f1 d1 f2 d2 rb rs k <-> v = ev3 h0 x nr ns nt (bas f0 d0 nr h0[at_ rb rs k+0]) (bas f1 d1 ns h0[at_ rb rs k+1]) (bas f2 d2 nt h0[at_ rb rs k+2]) ns
  let rec ghost to_ev3i (h0 h: map int real) (c nr ns nt wt sl: int) (w0 w2: map int real) (m: int)
    requires { forall q. wt <= q < wt+m -> h[q] = w0[q-wt] } requires { forall q. sl <= q < sl+m -> h[q] = wsum h0 (c+(q-sl)) (nr*ns) w2 nt }
    ensures { dotp h sl 1 wt 1 m = ev3i h0 c nr ns nt w0 w2 m } variant { m } = assert { at_ wt 1 (m-1) = wt+(m-1) /\ at_ sl 1 (m-1) = sl+(m-1) }; if m > 0 then to_ev3i h0 h c nr ns nt wt sl w0 w2 (m-1)
  let rec ghost to_ev3 (h0 h: map int real) (b nr ns nt wt ws sl: int) (w0 w1 w2: map int real) (m: int)
    requires { 1 <= nr /\ m <= ns } requires { forall q. wt <= q < wt+nr -> h[q] = w0[q-wt] } requires { forall q. ws <= q < ws+m -> h[q] = w1[q-ws] } requires { forall q. sl <= q < sl+nr*ns -> h[q] = wsum h0 (b+(q-sl)) (nr*ns) w2 nt }
    ensures { r2 h wt nr ws sl 0 m = ev3 h0 b nr ns nt w0 w1 w2 m } variant { m }
    = assert { at_ ws 1 (m-1) = ws+(m-1) }; if m > 0 then begin to_ev3 h0 h b nr ns nt wt ws sl w0 w1 w2 (m-1); atin sl nr (m-1) ns; assert { ns*nr = nr*ns }; assert { forall q. at_ b nr (m-1) + (q - at_ sl nr (m-1)) = b + (q-sl) };
        assert { forall q. at_ sl nr (m-1) <= q < at_ sl nr (m-1)+nr -> h[q] = wsum h0 (at_ b nr (m-1)+(q-at_ sl nr (m-1))) (nr*ns) w2 nt }; to_ev3i h0 h (at_ b nr (m-1)) nr ns nt wt (at_ sl nr (m-1)) w0 w2 nr; assert { at_ sl nr (0+(m-1)) = at_ sl nr (m-1) };
        assert { r2 h wt nr ws sl 0 m = r2 h wt nr ws sl 0 (m-1) +. mulr (dotp h (at_ sl nr (0+(m-1))) 1 wt 1 nr) h[at_ ws 1 (m-1)] }; assert { h[at_ ws 1 (m-1)] = w1[m-1] };
        assert { ev3 h0 b nr ns nt w0 w1 w2 m = ev3 h0 b nr ns nt w0 w1 w2 (m-1) +. mulr (ev3i h0 (at_ b nr (m-1)) nr ns nt w0 w2 nr) w1[m-1] } end
"""
def ee3():
    st='findpts_el_data_3'; N=lambda d:f'@@u32[sub_{st}_n fd+{d}]'; F=lambda d:f'@@ptr[sub_{st}_lag fd+{d}]'; L=lambda d:f'@@ptr[sub_{st}_lag_data fd+{d}]'
    W=f'@@{st}_work[fd]'; OS='(div out_stride 8)'; RS='(div r_stride 8)'
    nr,ns,nt=N(0),N(1),N(2); TOP=f'({W}+({nr}+{ns})*pn+{nt}*pn+pn*({nr}*{ns})+{ns})'; IN=f'({nr}*{ns})*{nt}'
    B=lambda d,k:f'(bas {F(d)} {L(d)} {N(d)} @@f64[at_ r_base {RS} {k}+{d}])'
    def off(b,l): return f'({TOP}<={b} \\/ {b}+{l}<={W})'
    req=['mod out_stride 8=0','mod r_stride 8=0','0<=pn',f'{OS}>=1 \\/ pn<=1',f'1<={nr}',f'1<={ns}',f'1<={nt}',f'({nr}+{ns})*pn+{nt}*pn+pn*({nr}*{ns})+{ns}<='+UM,f'{IN}<='+UM,f'{nr}*{ns}<='+UM,off('in_',IN)]
    LS=lambda d:f'lsz {F(d)} {L(d)} {N(d)}'
    for d in(0,1,2):
        req+=[f'0<={LS(d)}',off(L(d),LS(d)),f'in_+{IN}<={L(d)} \\/ {L(d)}+{LS(d)}<=in_']
        req+=[f'forall k. 0<=k<pn -> (at_ r_base {RS} k+2<{L(d)} \\/ {L(d)}+{LS(d)}<=at_ r_base {RS} k)']
    req+=[f'forall k. 0<=k<pn -> (at_ r_base {RS} k+2<{W} \\/ {TOP}<=at_ r_base {RS} k)',f'forall k. 0<=k<pn -> (at_ out_base {OS} k<{W} \\/ {TOP}<=at_ out_base {OS} k)']
    w={'f64':(f'{W}<=a<{TOP} \\/ '+' \\/ '.join(f'{L(d)}<=a<{L(d)}+{LS(d)}' for d in(0,1,2))+f' \\/ (exists k. 0<=k<pn /\\ a=at_ out_base {OS} k)').replace('@@','@')}
    B_=lambda d,k:f'(bas f{d} d{d} n{"rst"[d]} @@f64[at_ r_base rs {k}+{d}])'
    P=((0,'wtrs','(nr+ns)','','nr'),(1,'wtrs','(nr+ns)','+nr','ns'),(2,'wtt','nt','','nt'))
    wt=lambda n,h='@f64':[f'forall k q. 0<=k<{n} -> at_ {b} {z} k{o}<=q<at_ {b} {z} k{o}+{l} -> {h}[q]={B_(d,"k")}[q-(at_ {b} {z} k{o})]' for d,b,z,o,l in P]
    keepin=['forall q. in_<=q<in_+nr*ns*nt -> @f64[q]=@@f64[q]','forall k. 0<=k<pn -> @f64[at_ r_base rs k]=@@f64[at_ r_base rs k] /\\ @f64[at_ r_base rs k+1]=@@f64[at_ r_base rs k+1] /\\ @f64[at_ r_base rs k+2]=@@f64[at_ r_base rs k+2]']
    V=lambda k:f'ev3 @@f64 in_ {nr} {ns} {nt} {B(0,k)} {B(1,k)} {B(2,k)} {ns}'
    V_=lambda k:f'ev3 @@f64 in_ nr ns nt {B_(0,k)} {B_(1,k)} {B_(2,k)} ns'
    L0=[f'let ghost {v}{d} = {x(d)}' for v,x in(('f',F),('d',L)) for d in(0,1,2)]
    S={'gslib_findpts_el_eval_3':dict(prelude=E3L,requires=[x.replace('@@','@') for x in req],w=w,ensures=[f'forall k. 0<=k<pn -> @f64[at_ out_base {OS} k]={V("k")}'],
      loops={1:dict(inv=['0<=i<=pn','r=at_ r_base rs i']+wt('i')+keepin,var='pn-i'),
             2:dict(inv=['0<=i<=pn','out=at_ out_base os i','forall q. wtrs<=q<temp -> @f64[q]=h2[q]','forall k. 0<=k<i -> vok @f64[at_ out_base os k] @@f64 in_ nr ns nt f0 d0 f1 d1 f2 d2 r_base rs k'],var='pn-i')},
      ghost={'entry':[f'let ghost os = pure {{ {OS} }}',f'let ghost rs = pure {{ {RS} }}']+L0,
             ('before',1):['atsuc r_base rs 0','atall wtrs (nr+ns) pn','atall wtt nt pn','assert { (nr+ns)*pn>=0 /\\ nt*pn>=0 /\\ pn*nrs>=0 }','assert { pn*(nr+ns)=(nr+ns)*pn /\\ pn*nt=nt*pn }'],
             ('enter',1):['atin wtrs (nr+ns) i pn','atin wtt nt i pn','atlt wtrs (nr+ns) i','atlt wtt nt i','atsuc r_base rs i'],
             ('beforecall','gslib_tensor_mxm',1):['let ghost h1 = @f64','assert { i=pn }','assert { nrs*pn=pn*nrs }'],
             ('before',2):['let ghost h2 = @f64','atsuc out_base os 0','atall slice nrs pn']+[f'assert {{ {x} }}' for x in wt('pn','h2')]+[
                'for k_ = 0 to pn-1 do invariant { forall k. 0<=k<k_ -> rok h2 @@f64 (at_ slice nrs k) nrs in_ '+B_(2,'k')+' nt } row slice k_ nrs; atin wtt nt k_ pn; atin slice nrs k_ pn; for i_ = 0 to nrs-1 do invariant { forall q. at_ slice nrs k_<=q<at_ slice nrs k_+i_ -> h2[q]=wsum @@f64 (in_+(q-at_ slice nrs k_)) nrs '+B_(2,'k_')+' nt } atin2 in_ nrs i_ nt; assert { let q = at_ slice nrs k_+i_ in h2[q]=dotp h1 (in_+i_) nrs (at_ wtt nt k_) 1 nt }; to_wsum @@f64 h1 (in_+i_) nrs (at_ wtt nt k_) (pure { '+B_(2,'k_')+' }) nt done; assert { forall q. at_ slice nrs k_<=q<at_ slice nrs k_+nrs -> h2[q]=wsum @@f64 (in_+(q-at_ slice nrs k_)) nrs '+B_(2,'k_')+' nt }; rokd h2 @@f64 (at_ slice nrs k_) nrs in_ (pure { '+B_(2,'k_')+' }) nt done'],
             ('enter',2):['atin wtrs (nr+ns) i pn','atin slice nrs i pn','atsuc out_base os i','if os >= 1 then atlt out_base os i'],
             ('aftercall','fp_lagrange_fun_at',1):['assert { '+x+' }' for x in wt('i')],('aftercall','fp_lagrange_fun_at',2):['assert { '+x+' }' for x in wt('i')],
             ('aftercall','fp_lagrange_fun_at',3):['assert { '+x+' }' for x in wt('i')+[y.replace('forall k q. 0<=k<i ->','forall q.').replace(' k',' i') for y in wt('i')]],
             ('aftercall','tensor_i2',1):['let ghost h3 = @f64','assert { r2 h3 0 0 0 0 0 0 = 0.0 }'][:1]+['assert { forall k. 0<=k<i -> vok @f64[at_ out_base os k] @@f64 in_ nr ns nt f0 d0 f1 d1 f2 d2 r_base rs k }'],
             ('endbody',2):['assert { forall k. 0<=k<i -> vok @f64[at_ out_base os k] @@f64 in_ nr ns nt f0 d0 f1 d1 f2 d2 r_base rs k }','assert { @f64[at_ out_base os i]='+V_('i')+' }','assert { vok @f64[at_ out_base os i] @@f64 in_ nr ns nt f0 d0 f1 d1 f2 d2 r_base rs i }','assert { forall k. 0<=k<=i -> vok @f64[at_ out_base os k] @@f64 in_ nr ns nt f0 d0 f1 d1 f2 d2 r_base rs k }'],
             ('beforecall','tensor_i2',1):['assert { '+wt('pn')[0].replace('forall k q. 0<=k<pn','forall q. 0<=i<pn').replace(' k',' i')+' }','assert { '+wt('pn')[1].replace('forall k q. 0<=k<pn','forall q. 0<=i<pn').replace(' k',' i')+' }',
                 'rokd h2 @@f64 (at_ slice nrs i) nrs in_ (pure { '+B_(2,'i')+' }) nt','to_ev3 h0_f64 @f64 in_ nr ns nt (at_ wtrs (nr+ns) i) (at_ wtrs (nr+ns) i+nr) (at_ slice nrs i) (pure { '+B_(0,'i')+' }) (pure { '+B_(1,'i')+' }) (pure { '+B_(2,'i')+' }) ns'],
             })}
    S['tensor_i2']={k:v for k,v in c16.HS['tensor_i2'].items() if k!='prelude'}
    return S
def eu3(): return dict(file='src/findpts_el_3.c',name='findpts_el_3.c[eval]',specs=ee3(),prelude=EPRE3,extern=ten(3),real='op')
def eu2(): return dict(file='src/findpts_el_2.c',name='findpts_el_2.c[eval]',specs=ee2(),prelude=EPRE,extern=ten(2),real='op')
def units(): return [lu(2),lu(3),eu2(),eu3()]
