"""contracts of the tensor kernels (C16): every entry of the output is the sum the name promises, over exact reals"""
import os
TUF=os.path.dirname(os.path.abspath(__file__))+"/tu/t_tensor.c"
PRE='''
  function at_ (b s k: int) : int
  axiom at_def: forall b s k. at_ b s k = b + k*s
  function dotp (h: map int real) (a sa b sb n: int) : real
  axiom dotp_nil: forall h a sa b sb n. n <= 0 -> dotp h a sa b sb n = 0.0
  axiom dotp_snoc: forall h a sa b sb n. n > 0 -> dotp h a sa b sb n = dotp h a sa b sb (n-1) +. mulr h[at_ a sa (n-1)] h[at_ b sb (n-1)]
  function qd (c n q: int) : int
  function qm (c n q: int) : int
  axiom qd_def: forall c n q. qd c n q = div (q-c) n
  axiom qm_def: forall c n q. qm c n q = mod (q-c) n
  let ghost row (c j n: int) requires { 0 < n } ensures { forall q. c+j*n <= q < c+j*n+n -> qd c n q = j /\\ qm c n q = q-c-j*n }
   = assert { forall x. x = n * div x n + mod x n /\\ 0 <= mod x n < n };
     assert { forall x. j*n <= x < j*n+n -> (j - div x n < 1 by n*(j-div x n) < n*1) };
     assert { forall x. j*n <= x < j*n+n -> (j - div x n > -1 by n*(j-div x n) > n*(-1)) };
     assert { forall x. j*n <= x < j*n+n -> div x n = j };
     assert { forall x. j*n <= x < j*n+n -> mod x n = x - j*n }
'''
EXT='''
  let rec ghost dotp_ext (h g: map int real) (a sa b sb c sc d sd n: int)
    requires { forall k. 0 <= k < n -> h[at_ a sa k] = g[at_ c sc k] /\\ h[at_ b sb k] = g[at_ d sd k] }
    ensures { dotp h a sa b sb n = dotp g c sc d sd n } variant { n }
   = if n > 0 then begin dotp_ext h g a sa b sb c sc d sd (n-1) end
'''
UM='4294967295'
def dis(a,la,b,lb): return f'{a}+{la}<={b} \\/ {b}+{lb}<={a}'
SPEC={
 'gslib_tensor_dot':dict(ensures=['result = dotp @f64 va 1 b 1 n'],
   loops={1:dict(inv=['0<=n<=n_0','va=va_0+(n_0-n)','b=b_0+(n_0-n)','sum=dotp @f64 va_0 1 b_0 1 (n_0-n)'],var='n')}),
 'gslib_tensor_mxv':dict(requires=[dis('y','ny','vA','nx*ny'),dis('y','ny','x','nx')],w={'f64':'y<=a<y+ny'},r={'f64':'vA<=a<vA+nx*ny \\/ x<=a<x+nx'},
   ensures=['forall p. y<=p<y+ny -> @f64[p]=dotp @@f64 (vA+(p-y)) ny x 1 nx'],
   loops={1:dict(inv=['0<=i<=ny','forall p. y<=p<y+i -> @f64[p]=0.0'],var='ny-i'),
          2:dict(inv=['0<=nx<=nx_0','x=x_0+(nx_0-nx)','vA=vA_0+(nx_0-nx)*ny','forall p. y<=p<y+ny -> @f64[p]=dotp @@f64 (vA_0+(p-y)) ny x_0 1 (nx_0-nx)'],var='nx'),
          3:dict(inv=['0<=i<=ny','vA=vA_0+(nx_0-nx)*ny+i','forall p. y<=p<y+i -> @f64[p]=dotp @@f64 (vA_0+(p-y)) ny x_0 1 (nx_0-nx+1)','forall p. y+i<=p<y+ny -> @f64[p]=dotp @@f64 (vA_0+(p-y)) ny x_0 1 (nx_0-nx)'],var='ny-i')},
   ghost={('enter',2):['assert { nx_0*ny>=(nx_0-nx+1)*ny }'],('enter',3):['assert { vA_0+i+(nx_0-nx)*ny=vA }','assert { vA_0<=vA<vA_0+nx_0*ny }','assert { @f64[vA]=@@f64[vA] }','assert { dotp @@f64 (vA_0+i) ny x_0 1 (nx_0-nx+1)=dotp @@f64 (vA_0+i) ny x_0 1 (nx_0-nx) +. mulr @@f64[vA] xk }']}),
 'gslib_tensor_mtxv':dict(requires=['nx>=1',dis('y','ny','vA','nx*ny'),dis('y','ny','x','nx')],w={'f64':'y<=a<y+ny'},r={'f64':'vA<=a<vA+nx*ny \\/ x<=a<x+nx'},
   ensures=['forall p. y<=p<y+ny -> @f64[p]=dotp @@f64 (at_ vA nx (p-y)) 1 x 1 nx'],
   loops={1:dict(inv=['0<=ny<=ny_0','y=y_0+(ny_0-ny)','vA=vA_0+(ny_0-ny)*nx','forall p. y_0<=p<y -> @f64[p]=dotp @@f64 (at_ vA_0 nx (p-y_0)) 1 x 1 nx'],var='ny'),
          2:dict(inv=['0<=n<nx','vA=vA_0+(ny_0-ny)*nx+(nx-n)','xp=x+(nx-n)','sum=dotp @@f64 (at_ vA_0 nx (ny_0-ny)) 1 x 1 (nx-n)'],var='n')},
   ghost={('enter',1):['assert { ny_0*nx>=(ny_0-ny+1)*nx }'],('before',2):['assert { dotp @@f64 (at_ vA_0 nx (ny_0-ny)) 1 x 1 1 = 0.0 +. mulr @@f64[vA-1] @@f64[x] }','assert { vA_0<=vA-1<vA_0+ny_0*nx }','assert { @f64[vA-1]=@@f64[vA-1] }','assert { @f64[x]=@@f64[x] }','assert { sum = dotp @@f64 (at_ vA_0 nx (ny_0-ny)) 1 x 1 1 }'],
      ('enter',2):['assert { @f64[vA]=@@f64[vA] /\\ @f64[xp]=@@f64[xp] }','assert { dotp @@f64 (at_ vA_0 nx (ny_0-ny)) 1 x 1 (nx-n+1) = dotp @@f64 (at_ vA_0 nx (ny_0-ny)) 1 x 1 (nx-n) +. mulr @@f64[vA] @@f64[xp] }']}),
}
MM='forall q. vC<=q<vC+nc*nb -> @f64[q]=dotp @@f64 (vA+qm vC nc q) nc (at_ vB na (qd vC nc q)) 1 na'
TM='forall q. vC<=q<vC+nc*nb -> @f64[q]=dotp @@f64 (at_ vA na (qm vC nc q)) 1 (at_ vB na (qd vC nc q)) 1 na'
MD=['forall q. vC_0<=q<vC_0+j*nc -> @f64[q]=dotp @@f64 (vA+qm vC_0 nc q) nc (at_ vB_0 na (qd vC_0 nc q)) 1 na']
MZ=['forall q. vC+nc<=q<vC_0+nc*nb -> @f64[q]=0.0']
SPEC.update({
 'gslib_tensor_mxm':dict(requires=['nc*nb<='+UM,dis('vC','nc*nb','vA','nc*na'),dis('vC','nc*nb','vB','na*nb')],w={'f64':'vC<=a<vC+nc*nb'},r={'f64':'vA<=a<vA+nc*na \\/ vB<=a<vB+na*nb'},ensures=[MM],
   loops={1:dict(inv=['0<=i<=nc*nb','forall p. vC_0<=p<vC_0+i -> @f64[p]=0.0'],var='nc*nb-i'),
          2:dict(inv=['0<=j<=nb','vC=vC_0+j*nc','vB=vB_0+j*na']+MD+['forall q. vC<=q<vC_0+nc*nb -> @f64[q]=0.0'],var='nb-j'),
          3:dict(inv=['0<=k<=na','vB=vB_0+j*na+k','vA_=vA+k*nc','forall p. vC<=p<vC+nc -> @f64[p]=dotp @@f64 (vA+(p-vC)) nc (at_ vB_0 na j) 1 k']+MD+MZ,var='na-k'),
          4:dict(inv=['0<=i<=nc','vA_=vA+k*nc+i','forall p. vC<=p<vC+i -> @f64[p]=dotp @@f64 (vA+(p-vC)) nc (at_ vB_0 na j) 1 (k+1)','forall p. vC+i<=p<vC+nc -> @f64[p]=dotp @@f64 (vA+(p-vC)) nc (at_ vB_0 na j) 1 k']+MD+MZ,var='nc-i')},
   ghost={('enter',2):['assert { nb*nc>=(j+1)*nc /\\ nb*na>=(j+1)*na }'],('enter',3):['assert { na*nc>=(k+1)*nc }'],('enter',4):['assert { @f64[vA_]=@@f64[vA_] }','assert { @f64[vC+i]=dotp @@f64 (vA+i) nc (at_ vB_0 na j) 1 k }','assert { at_ (vA+i) nc k=vA_ /\\ at_ (at_ vB_0 na j) 1 k=vB-1 /\\ b=@@f64[vB-1] }','assert { dotp @@f64 (vA+i) nc (at_ vB_0 na j) 1 (k+1)=dotp @@f64 (vA+i) nc (at_ vB_0 na j) 1 k +. mulr @@f64[vA_] b }'],
          ('after',3):['if nc > 0 then row vC_0 j nc','assert { forall q. vC<=q<vC+nc -> qd vC_0 nc q=j /\\ qm vC_0 nc q=q-vC }','assert { forall q. vC<=q<vC+nc -> @f64[q]=dotp @@f64 (vA+(q-vC)) nc (at_ vB_0 na j) 1 na }','assert { forall q. vC<=q<vC+nc -> @f64[q]=dotp @@f64 (vA+qm vC_0 nc q) nc (at_ vB_0 na (qd vC_0 nc q)) 1 na }']}),
 'gslib_tensor_mtxm':dict(requires=['nc*nb<='+UM,dis('vC','nc*nb','vA','nc*na'),dis('vC','nc*nb','vB','na*nb')],w={'f64':'vC<=a<vC+nc*nb'},r={'f64':'vA<=a<vA+nc*na \\/ vB<=a<vB+na*nb'},ensures=[TM],prelude=EXT,
   loops={1:dict(inv=['0<=j<=nb','vC=vC_0+j*nc','vB=vB_0+j*na','forall q. vC_0<=q<vC -> @f64[q]=dotp @@f64 (at_ vA na (qm vC_0 nc q)) 1 (at_ vB_0 na (qd vC_0 nc q)) 1 na'],var='nb-j'),
          2:dict(inv=['0<=i<=nc','vC=vC_0+j*nc+i','vA_=vA+i*na','forall q. vC_0<=q<vC -> @f64[q]=dotp @@f64 (at_ vA na (qm vC_0 nc q)) 1 (at_ vB_0 na (qd vC_0 nc q)) 1 na'],var='nc-i')},
   ghost={('enter',1):['assert { nb*nc>=(j+1)*nc /\\ nb*na>=(j+1)*na }'],('enter',2):['assert { nc*na>=(i+1)*na }','assert { vA_=at_ vA na i /\\ vB=at_ vB_0 na j }','assert { vC-vC_0=j*nc+i }','row vC_0 j nc','assert { qd vC_0 nc vC=j /\\ qm vC_0 nc vC=i }','dotp_ext h_f64 h0_f64 vA_ 1 vB 1 vA_ 1 vB 1 na'],('after',1):['assert { j=nb }','assert { vC=vC_0+nc*nb }']}),
})

R1='dotp h (at_ u nr q) 1 vJr 1 nr'
P2=r"""
  function r2 (h: map int real) (vJr nr vJs u q n: int) : real
  axiom r2_nil: forall h vJr nr vJs u q n. n <= 0 -> r2 h vJr nr vJs u q n = 0.0
  axiom r2_snoc: forall h vJr nr vJs u q n. n > 0 -> r2 h vJr nr vJs u q n = r2 h vJr nr vJs u q (n-1) +. mulr (dotp h (at_ u nr (q+(n-1))) 1 vJr 1 nr) h[at_ vJs 1 (n-1)]
  function r3 (h: map int real) (vJr nr vJs ns vJt u n: int) : real
  axiom r3_nil: forall h vJr nr vJs ns vJt u n. n <= 0 -> r3 h vJr nr vJs ns vJt u n = 0.0
  axiom r3_snoc: forall h vJr nr vJs ns vJt u n. n > 0 -> r3 h vJr nr vJs ns vJt u n = r3 h vJr nr vJs ns vJt u (n-1) +. mulr h[at_ vJt 1 (n-1)] (r2 h vJr nr vJs u (at_ 0 ns (n-1)) ns)
  let rec ghost to_r2 (h g: map int real) (vJr nr vJs u w q n: int)
    requires { forall k. 0 <= k < n -> g[at_ w 1 k] = dotp h (at_ u nr (q+k)) 1 vJr 1 nr /\ g[at_ vJs 1 k] = h[at_ vJs 1 k] }
    ensures { dotp g w 1 vJs 1 n = r2 h vJr nr vJs u q n /\ dotp g vJs 1 w 1 n = r2 h vJr nr vJs u q n } variant { n }
   = if n > 0 then to_r2 h g vJr nr vJs u w q (n-1)
  let rec ghost to_r3 (h g: map int real) (vJr nr vJs ns vJt u w n: int)
    requires { forall k. 0 <= k < n -> g[at_ w 1 k] = r2 h vJr nr vJs u (at_ 0 ns k) ns /\ g[at_ vJt 1 k] = h[at_ vJt 1 k] }
    ensures { dotp g vJt 1 w 1 n = r3 h vJr nr vJs ns vJt u n } variant { n }
   = if n > 0 then to_r3 h g vJr nr vJs ns vJt u w (n-1)
"""
P2T="""
  function t2 (h: map int real) (x sx mr u y n: int) : real
  axiom t2_nil: forall h x sx mr u y n. n <= 0 -> t2 h x sx mr u y n = 0.0
  axiom t2_snoc: forall h x sx mr u y n. n > 0 -> t2 h x sx mr u y n = t2 h x sx mr u y (n-1) +. mulr (dotp h x 1 (at_ u mr (n-1)) 1 mr) h[at_ y 1 (n-1)]
"""
HS={
 'tensor_i1':dict(ensures=['result=dotp @f64 vJr 1 u 1 nr']),
 'tensor_i2':dict(requires=['nr>=1',dis('work','ns','u','nr*ns'),dis('work','ns','vJr','nr'),dis('work','ns','vJs','ns')],w={'f64':'work<=a<work+ns'},r={'f64':'vJr<=a<vJr+nr \\/ vJs<=a<vJs+ns \\/ u<=a<u+nr*ns'},
    prelude=P2,ensures=['result=r2 @@f64 vJr nr vJs u 0 ns'],ghost={('aftercall','gslib_tensor_mtxv',1):['let ghost h1 = @f64','to_r2 @@f64 h1 vJr nr vJs u work 0 ns']}),
}

def disj(w,l,*o): return [dis(w,l,x,n) for x,n in o]
HS['tensor_i3']=dict(requires=['nr>=1','ns>=1','ns*nt<='+UM]+disj('work','(nt+ns*nt)',('u','nr*(ns*nt)'),('vJr','nr'),('vJs','ns'),('vJt','nt')),w={'f64':'work<=a<work+(nt+ns*nt)'},
    r={'f64':'vJr<=a<vJr+nr \\/ vJs<=a<vJs+ns \\/ vJt<=a<vJt+nt \\/ u<=a<u+nr*(ns*nt)'},prelude=P2,ensures=['result=r3 @@f64 vJr nr vJs ns vJt u nt'],
    ghost={('aftercall','gslib_tensor_mtxv',1):['let ghost h1 = @f64'],
           ('aftercall','gslib_tensor_mtxv',2):['let ghost h2 = @f64','for k_ = 0 to nt-1 do invariant { forall m. 0<=m<k_ -> h2[at_ work 1 m]=r2 @@f64 vJr nr vJs u (at_ 0 ns m) ns } assert { (k_+1)*ns<=ns*nt }; to_r2 @@f64 h1 vJr nr vJs u (at_ work2 ns k_) (at_ 0 ns k_) ns; assert { h2[at_ work 1 k_]=h2[work+k_] /\\ h2[work+k_]=dotp h1 (at_ work2 ns k_) 1 vJs 1 ns } done',
                       'to_r3 @@f64 h2 vJr nr vJs ns vJt u work nt']})
HS['tensor_ig1']=dict(requires=[dis('g','1','wtr','2*nr'),dis('g','1','u','nr')],w={'f64':'a=g'},r={'f64':'wtr<=a<wtr+2*nr \\/ u<=a<u+nr'},prelude=EXT,
    ensures=['@f64[g]=dotp @@f64 (wtr+nr) 1 u 1 nr','result=dotp @@f64 wtr 1 u 1 nr'],ghost={('aftercall','gslib_tensor_dot',2):['dotp_ext h_f64 h0_f64 wtr 1 u 1 wtr 1 u 1 nr']})
P3=r"""
  (* sum over i<n of h[w+i] * (sum over j<ns of h[u+i+j*nr]*h[x+j]) *)
  function m2 (h: map int real) (w u nr x ns n: int) : real
  axiom m2_nil: forall h w u nr x ns n. n <= 0 -> m2 h w u nr x ns n = 0.0
  axiom m2_snoc: forall h w u nr x ns n. n > 0 -> m2 h w u nr x ns n = m2 h w u nr x ns (n-1) +. mulr h[at_ w 1 (n-1)] (dotp h (u+(n-1)) nr x 1 ns)
  let rec ghost to_m2 (h g: map int real) (w u nr x ns v n: int)
    requires { forall k. 0 <= k < n -> g[at_ v 1 k] = dotp h (u+k) nr x 1 ns /\ g[at_ w 1 k] = h[at_ w 1 k] }
    ensures { dotp g w 1 v 1 n = m2 h w u nr x ns n /\ dotp g v 1 w 1 n = m2 h w u nr x ns n } variant { n }
   = if n > 0 then to_m2 h g w u nr x ns v (n-1)
"""
HS['tensor_ig2']=dict(requires=['2*nr<='+UM]+disj('work','2*nr',('u','nr*ns'),('wtr','2*nr'),('wts','2*ns'),('g','2'))+disj('g','2',('u','nr*ns'),('wtr','2*nr'),('wts','2*ns')),
    w={'f64':'work<=a<work+2*nr \\/ g<=a<g+2'},r={'f64':'wtr<=a<wtr+2*nr \\/ wts<=a<wts+2*ns \\/ u<=a<u+nr*ns'},prelude=P3,
    ensures=['@f64[g]=m2 @@f64 (wtr+nr) u nr wts ns nr','@f64[g+1]=m2 @@f64 wtr u nr (wts+ns) ns nr','result=m2 @@f64 wtr u nr wts ns nr'],
    ghost={('aftercall','gslib_tensor_mxm',1):['let ghost h1 = @f64','if nr > 0 then begin row work 0 nr; row work 1 nr end','assert { at_ wts ns 0=wts /\\ at_ wts ns 1=wts+ns }','assert { forall p. work<=p<work+nr -> h1[p]=dotp @@f64 (u+(p-work)) nr wts 1 ns }','assert { forall p. work+nr<=p<work+2*nr -> h1[p]=dotp @@f64 (u+(p-(work+nr))) nr (wts+ns) 1 ns }','to_m2 @@f64 h1 (wtr+nr) u nr wts ns work nr'],
      ('beforecall','gslib_tensor_dot',2):['to_m2 @@f64 @f64 wtr u nr (wts+ns) ns (work+nr) nr'],('beforecall','gslib_tensor_dot',3):['to_m2 @@f64 @f64 wtr u nr wts ns work nr']})
HS['tensor_2t']=dict(requires=['nr*ms<='+UM,'nr*ns<='+UM]+disj('work','nr*ms',('vJrt','mr*nr'),('vJst','ms*ns'),('u','mr*ms'))+disj('out','nr*ns',('work','nr*ms'),('vJrt','mr*nr'),('vJst','ms*ns'),('u','mr*ms')),
    w={'f64':'work<=a<work+nr*ms \\/ out<=a<out+nr*ns'},r={'f64':'vJrt<=a<vJrt+mr*nr \\/ vJst<=a<vJst+ms*ns \\/ u<=a<u+mr*ms'},
    prelude=P2T+r"""
  let rec ghost to_t2 (h g: map int real) (w i nr x mr u y n: int)
    requires { forall k. 0 <= k < n -> g[at_ (w+i) nr k] = dotp h x 1 (at_ u mr k) 1 mr /\ g[at_ y 1 k] = h[at_ y 1 k] }
    ensures { dotp g (w+i) nr y 1 n = t2 h x 1 mr u y n } variant { n }
   = if n > 0 then to_t2 h g w i nr x mr u y (n-1)
""",
    ensures=['forall q. out<=q<out+nr*ns -> @f64[q]=t2 @@f64 (at_ vJrt mr (qm out nr q)) 1 mr u (at_ vJst ms (qd out nr q)) ms'],
    ghost={('aftercall','gslib_tensor_mtxm',1):['let ghost h1 = @f64','for l_ = 0 to ms-1 do invariant { forall l i. 0<=l<l_ -> 0<=i<nr -> h1[at_ (work+i) nr l]=dotp @@f64 (at_ vJrt mr i) 1 (at_ u mr l) 1 mr } if nr > 0 then begin row work l_ nr; assert { (l_+1)*nr<=nr*ms }; assert { forall i. 0<=i<nr -> at_ (work+i) nr l_=work+l_*nr+i }; assert { forall i. 0<=i<nr -> work<=at_ (work+i) nr l_<work+nr*ms /\\ qd work nr (at_ (work+i) nr l_)=l_ /\\ qm work nr (at_ (work+i) nr l_)=i }; assert { forall i. 0<=i<nr -> h1[at_ (work+i) nr l_]=dotp @@f64 (at_ vJrt mr i) 1 (at_ u mr l_) 1 mr } end done'],
      ('aftercall','gslib_tensor_mxm',1):['let ghost h2 = @f64','for j_ = 0 to ns-1 do invariant { forall q. out<=q<out+j_*nr -> h2[q]=t2 @@f64 (at_ vJrt mr (qm out nr q)) 1 mr u (at_ vJst ms (qd out nr q)) ms } if nr > 0 then begin row out j_ nr; assert { (j_+1)*nr<=nr*ns /\\ (j_+1)*ms<=ms*ns }; for i_ = 0 to nr-1 do invariant { forall q. out+j_*nr<=q<out+j_*nr+i_ -> h2[q]=t2 @@f64 (at_ vJrt mr (qm out nr q)) 1 mr u (at_ vJst ms (qd out nr q)) ms } to_t2 @@f64 h1 work i_ nr (at_ vJrt mr i_) mr u (at_ vJst ms j_) ms; assert { qd out nr (out+j_*nr+i_)=j_ /\\ qm out nr (out+j_*nr+i_)=i_ }; assert { out<=out+j_*nr+i_<out+nr*ns }; assert { h2[out+j_*nr+i_]=dotp h1 (work+i_) nr (at_ vJst ms j_) 1 ms } done end done']})
def units():
    return [dict(file=TUF,src='src/tensor.c and src/tensor.h',name='tensor.c',specs=dict(SPEC,**HS),real='op',prelude=PRE)]
