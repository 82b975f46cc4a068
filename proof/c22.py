"""contracts of the quadrature rules and Lagrange bases (C22), over exact reals"""
ALG=r'''
  let ghost cancel (c a b: real) requires { c <> 0.0 /\ c *. a = c *. b } ensures { a = b } = assert { c *. (a -. b) = 0.0 }
  let ghost divmul (r a b: real) requires { b <> 0.0 /\ r = a /. b } ensures { r *. b = a } = ()
  (* pure polynomial identities used below *)
  let ghost alg1 (x m a z: real) ensures { x *. (m *. (z -. x *. a)) +. (1.0 -. x *. x) *. ((m +. 1.0) *. a) = (m +. 1.0) *. a -. x *. ((2.0 *. m +. 1.0) *. x *. a -. m *. z) } = ()
  let ghost alg2 (x da i a: real) ensures { (1.0 -. x *. x) *. (x *. da +. i *. a) = x *. ((1.0 -. x *. x) *. da) +. (1.0 -. x *. x) *. (i *. a) } = ()
  let ghost alg3 (x da i a: real) ensures { x *. (x *. da +. i *. a) -. da = x *. i *. a -. (1.0 -. x *. x) *. da } = ()
  let ghost alg4 (x m a z: real) ensures { x *. (m +. 1.0) *. a -. m *. (z -. x *. a) = (2.0 *. m +. 1.0) *. x *. a -. m *. z } = ()
  let ghost alg5 (x i b db: real) ensures { (2.0 *. i +. 1.0) *. (b +. x *. db) -. i *. (x *. db -. i *. b) = (i +. 1.0) *. (x *. db +. (i +. 1.0) *. b) } = ()
  let ghost alg6 (x i b db: real) ensures { (2.0 *. i +. 1.0) *. (2.0 *. db +. x *. b) -. i *. (x *. b -. (i -. 1.0) *. db) = (i +. 1.0) *. (x *. b +. (i +. 2.0) *. db) } = ()
  let ghost alg7 (x i a da: real) ensures { x *. (i +. 1.0) *. da -. (2.0 *. x *. da -. (i -. 1.0) *. i *. a) = (i -. 1.0) *. (x *. da +. i *. a) } = ()
  let ghost alg8 (x ea i da: real) ensures { x *. (x *. ea +. (i +. 1.0) *. da) -. ea = x *. (i +. 1.0) *. da -. (1.0 -. x *. x) *. ea } = ()
  let ghost alg9 (x m a da z: real) ensures { x *. (2.0 *. x *. da -. m *. (m +. 1.0) *. a) +. (m +. 2.0) *. (m *. (z -. x *. a)) = 2.0 *. x *. (x *. da +. (m +. 1.0) *. a) -. (m +. 2.0) *. ((2.0 *. m +. 1.0) *. x *. a -. m *. z) } = ()
  let ghost algD (i x xb a dc l r: real) requires { i *. l = xb -. a /\ dc = xb +. (i +. 1.0) *. l /\ r = (2.0 *. i +. 1.0) *. xb -. (i +. 1.0) *. a } ensures { i *. dc = r }
   = assert { i *. dc = i *. xb +. (i +. 1.0) *. (i *. l) }; assert { i *. dc = i *. xb +. (i +. 1.0) *. (xb -. a) }
  let ghost algE (i x xb a dc l r: real) requires { (i -. 1.0) *. l = xb -. a /\ dc = xb +. (i +. 2.0) *. l /\ r = (2.0 *. i +. 1.0) *. xb -. (i +. 2.0) *. a } ensures { (i -. 1.0) *. dc = r }
   = assert { (i -. 1.0) *. dc = (i -. 1.0) *. xb +. (i +. 2.0) *. ((i -. 1.0) *. l) }; assert { (i -. 1.0) *. dc = (i -. 1.0) *. xb +. (i +. 2.0) *. (xb -. a) }
  (* one step of the identities of the derivative: a,b,z values of degree m, m+1, m-1; d* derivatives *)
  let ghost idl1 (x m z a b da db: real)
    requires { db = x *. da +. (m +. 1.0) *. a } requires { (1.0 -. x *. x) *. da = m *. (z -. x *. a) } requires { (m +. 1.0) *. b = (2.0 *. m +. 1.0) *. x *. a -. m *. z }
    ensures { x *. db -. da = (m +. 1.0) *. b } ensures { (1.0 -. x *. x) *. db = (m +. 1.0) *. a -. x *. ((m +. 1.0) *. b) }
   = alg3 x da (m +. 1.0) a; alg4 x m a z; alg2 x da (m +. 1.0) a; alg1 x m a z
  let ghost idl2 (x m z a b da db ea eb: real)
    requires { db = x *. da +. (m +. 1.0) *. a } requires { (1.0 -. x *. x) *. da = m *. (z -. x *. a) } requires { (m +. 1.0) *. b = (2.0 *. m +. 1.0) *. x *. a -. m *. z }
    requires { eb = x *. ea +. (m +. 2.0) *. da } requires { (1.0 -. x *. x) *. ea = 2.0 *. x *. da -. m *. (m +. 1.0) *. a }
    ensures { x *. eb -. ea = m *. db } ensures { (1.0 -. x *. x) *. eb = 2.0 *. x *. db -. (m +. 2.0) *. ((m +. 1.0) *. b) }
   = alg8 x ea (m +. 1.0) da; alg7 x (m +. 1.0) a da; assert { x *. eb -. ea = x *. (m +. 2.0) *. da -. (1.0 -. x *. x) *. ea };
     alg2 x ea (m +. 2.0) da; assert { (1.0 -. x *. x) *. eb = x *. ((1.0 -. x *. x) *. ea) +. (m +. 2.0) *. ((1.0 -. x *. x) *. da) }; alg9 x m a da z
'''
LEG=r'''
  (* the nodes do not overlap the constant tables *)
  predicate offtab (z n: int)
  function gllzt (k: int) : int
  (* Legendre polynomials and their formal first and second derivatives, by the differentiated recurrence *)
  function lp (n: int) (x: real) : real
  function ld (n: int) (x: real) : real
  function le (n: int) (x: real) : real
  axiom lp_0: forall x. lp 0 x = 1.0
  axiom lp_1: forall x. lp 1 x = x
  axiom lp_r: forall n x. n >= 1 -> tofi (n+1) *. lp (n+1) x = tofi (2*n+1) *. x *. lp n x -. tofi n *. lp (n-1) x
  axiom ld_0: forall x. ld 0 x = 0.0
  axiom ld_1: forall x. ld 1 x = 1.0
  axiom ld_r: forall n x. n >= 1 -> tofi (n+1) *. ld (n+1) x = tofi (2*n+1) *. (lp n x +. x *. ld n x) -. tofi n *. ld (n-1) x
  axiom le_0: forall x. le 0 x = 0.0
  axiom le_1: forall x. le 1 x = 0.0
  axiom le_r: forall n x. n >= 1 -> tofi (n+1) *. le (n+1) x = tofi (2*n+1) *. (2.0 *. ld n x +. x *. le n x) -. tofi n *. le (n-1) x
'''
L0=ALG+r'''
  let ghost tofs (n: int) requires { n >= 0 } ensures { tofi (n+1) = tofi n +. 1.0 /\ tofi (n+2) = tofi n +. 2.0 /\ tofi (2*n+1) = 2.0 *. tofi n +. 1.0 /\ tofi n >=. 0.0 /\ (n >= 1 -> tofi n >=. 1.0) /\ (n >= 1 -> tofi (n-1) = tofi n -. 1.0) /\ (n >= 2 -> tofi n >=. 2.0) } = ()
  let ghost lp_step (n: int) (x i a b r: real) requires { n >= 1 /\ i = tofi n /\ a = lp (n-1) x /\ b = lp n x /\ r = ((2.0 *. i +. 1.0) *. x *. b -. i *. a) /. (i +. 1.0) } ensures { r = lp (n+1) x }
   = tofs n; divmul r ((2.0 *. i +. 1.0) *. x *. b -. i *. a) (i +. 1.0); assert { (i +. 1.0) *. lp (n+1) x = (2.0 *. i +. 1.0) *. x *. b -. i *. a }; cancel (i +. 1.0) r (lp (n+1) x)
'''
L1=L0+r'''
  (* the three-term recurrences of the derivatives, from the differentiated recurrence of the polynomials *)
  let rec ghost leg1 (n: int) (x: real) requires { n >= 1 }
    ensures { ld (n+1) x = x *. ld n x +. (tofi n +. 1.0) *. lp n x } ensures { x *. ld n x -. ld (n-1) x = tofi n *. lp n x }
    ensures { (1.0 -. x *. x) *. ld n x = tofi n *. lp (n-1) x -. x *. (tofi n *. lp n x) } variant { n }
   = let ghost i = tofi n in let ghost b = lp n x in let ghost da = ld (n-1) x in let ghost db = ld n x in let ghost dc = ld (n+1) x in
     tofs n; if n > 1 then begin leg1 (n-1) x; tofs (n-1);
      let ghost m = tofi (n-1) in let ghost z = lp (n-2) x in let ghost a = lp (n-1) x in
      assert { i = m +. 1.0 };
      assert { (1.0 -. x *. x) *. da = m *. (z -. x *. a) };
      idl1 x m z a b da db; assert { x *. db -. da = i *. b }; assert { (1.0 -. x *. x) *. db = i *. lp (n-1) x -. x *. (i *. b) } end
     else begin assert { i = 1.0 /\ da = 0.0 /\ db = 1.0 /\ b = x /\ lp (n-1) x = 1.0 }; assert { x *. db -. da = i *. b }; assert { (1.0 -. x *. x) *. db = i *. lp (n-1) x -. x *. (i *. b) } end;
     assert { x *. db -. da = i *. b };
     assert { (i +. 1.0) *. dc = (2.0 *. i +. 1.0) *. (b +. x *. db) -. i *. da };
     assert { da = x *. db -. i *. b }; assert { i *. da = i *. (x *. db -. i *. b) }; alg5 x i b db; assert { (i +. 1.0) *. dc = (i +. 1.0) *. (x *. db +. (i +. 1.0) *. b) };
     cancel (i +. 1.0) dc (x *. db +. (i +. 1.0) *. b)
  let ghost ld_step (n: int) (x i a b r: real) requires { n >= 1 /\ i = tofi n /\ a = ld (n-1) x /\ b = ld n x /\ r = ((2.0 *. i +. 1.0) *. x *. b -. (i +. 1.0) *. a) /. i } ensures { r = ld (n+1) x }
   = tofs n; leg1 n x; divmul r ((2.0 *. i +. 1.0) *. x *. b -. (i +. 1.0) *. a) i; assert { (2.0 *. i +. 1.0) *. x *. b = (2.0 *. i +. 1.0) *. (x *. b) };
     algD i x (x *. b) a (ld (n+1) x) (lp n x) (r *. i); cancel i r (ld (n+1) x)
'''
L2=L1+r'''
  let rec ghost leg2 (n: int) (x: real) requires { n >= 1 }
    ensures { le (n+1) x = x *. le n x +. (tofi n +. 2.0) *. ld n x } ensures { x *. le n x -. le (n-1) x = (tofi n -. 1.0) *. ld n x }
    ensures { (1.0 -. x *. x) *. le n x = 2.0 *. x *. ld n x -. (tofi n +. 1.0) *. (tofi n *. lp n x) } variant { n }
   = let ghost i = tofi n in let ghost b = lp n x in let ghost db = ld n x in let ghost ea = le (n-1) x in let ghost eb = le n x in let ghost ec = le (n+1) x in
     tofs n; leg1 n x; if n > 1 then begin leg2 (n-1) x; leg1 (n-1) x; tofs (n-1);
      let ghost m = tofi (n-1) in let ghost z = lp (n-2) x in let ghost a = lp (n-1) x in let ghost da = ld (n-1) x in
      assert { i = m +. 1.0 };
      assert { (1.0 -. x *. x) *. ea = 2.0 *. x *. da -. m *. (m +. 1.0) *. a };
      assert { (1.0 -. x *. x) *. da = m *. (z -. x *. a) };
      idl2 x m z a b da db ea eb; assert { x *. eb -. ea = (i -. 1.0) *. db }; assert { (1.0 -. x *. x) *. eb = 2.0 *. x *. db -. (i +. 1.0) *. (i *. b) } end
     else begin assert { i = 1.0 /\ ea = 0.0 /\ eb = 0.0 /\ db = 1.0 /\ b = x }; assert { x *. eb -. ea = (i -. 1.0) *. db }; assert { (1.0 -. x *. x) *. eb = 2.0 *. x *. db -. (i +. 1.0) *. (i *. b) } end;
     assert { ea = x *. eb -. (i -. 1.0) *. db };
     assert { (i +. 1.0) *. ec = (2.0 *. i +. 1.0) *. (2.0 *. db +. x *. eb) -. i *. ea }; assert { i *. ea = i *. (x *. eb -. (i -. 1.0) *. db) }; alg6 x i eb db; assert { (i +. 1.0) *. ec = (i +. 1.0) *. (x *. eb +. (i +. 2.0) *. db) };
     cancel (i +. 1.0) ec (x *. eb +. (i +. 2.0) *. db)
  let ghost le_step (n: int) (x i a b r: real) requires { n >= 2 /\ i = tofi n /\ a = le (n-1) x /\ b = le n x /\ r = ((2.0 *. i +. 1.0) *. x *. b -. (i +. 2.0) *. a) /. (i -. 1.0) } ensures { r = le (n+1) x }
   = tofs n; leg2 n x; assert { i -. 1.0 <> 0.0 }; divmul r ((2.0 *. i +. 1.0) *. x *. b -. (i +. 2.0) *. a) (i -. 1.0); assert { (2.0 *. i +. 1.0) *. x *. b = (2.0 *. i +. 1.0) *. (x *. b) };
     algE i x (x *. b) a (le (n+1) x) (ld n x) (r *. (i -. 1.0)); cancel (i -. 1.0) r (le (n+1) x)
'''
def leg(pre,f,k0,lo,hi,par,cur,oth,d,need,ini):
    # p[cur] is the value of degree k, p[oth] that of k-1; a pass writes degree k+1 to oth, then k+2 to cur
    return dict(requires=['n>=%d'%need],prelude=pre,ensures=[f'result={f} n x'],
     loops={1:dict(inv=[f'k>={k0}',f'k<=n+1 \\/ k={k0}',f'mod k 2={par}','i=tofi k',f'p[{cur}]={f} k x',f'p[{oth}]={f} (k-1) x'],var='n-k+2')},
     ghost={'entry':[f'let ghost ref k = {k0}'],('before',1):ini,('enter',1):['let ghost q = p'],
       ('endbody',1):[f'tofs k',f'{f}_step k x i q[{oth}] q[{cur}] p[{oth}]',f'{f}_step (k+1) x (i +. 1.0) q[{cur}] p[{oth}] p[{cur}]','k <- k+2']})
SPEC={
 'legendre':leg(L0,'lp',1,0,0,1,1,0,0,0,[]),
 'legendre_d1':leg(L1,'ld',2,0,0,0,0,1,1,1,['ld_step 1 x 1.0 0.0 1.0 (3.0 *. x)']),
 'legendre_d2':leg(L2,'le',3,0,0,1,1,0,2,2,['leg2 1 x; assert { le 2 x = 3.0 }','tofs 2; tofs 1; assert { (15.0 *. x) = ((2.0 *. 2.0 +. 1.0) *. x *. 3.0 -. (2.0 +. 2.0) *. 0.0) /. (2.0 -. 1.0) }; le_step 2 x 2.0 0.0 3.0 (15.0 *. x)']),
}

MIR='forall q. z<=q<z+n -> @f64[2*z+n-1-q] = -. @f64[q]'
MIRW='forall q. w<=q<w+n -> @f64[2*w+n-1-q] = @f64[q]'
NODEO='''
  predicate gnode (n: int) (z: real)
  predicate lnode (n: int) (z: real)
'''
NODE=NODEO+'''
  (* a node is the image of some point under a Newton step towards a root of P_n (of P_n' for the inner Lobatto nodes) *)
  axiom gnode_def: forall n z. gnode n z <-> exists x. z = x -. lp n x /. ld n x
  axiom lnode_def: forall n z. lnode n z <-> exists x. z = x -. ld n x /. le n x
  val rcos (x: real) : real
  let ghost gnode_i (n: int) (x z: real) requires { z = x -. lp n x /. ld n x } ensures { gnode n z } = ()
  let ghost lnode_i (n: int) (x z: real) requires { z = x -. ld n x /. le n x } ensures { lnode n z } = ()
'''
def nodes(f,d,npx,nd):
    return dict(requires=['0<=n','n<=1000000000'],prelude=NODE,diverges=True,w={'f64':'z<=a<z+n'},
      ensures=[MIR,f'forall q. z<=q<z+div n 2 -> {nd} {npx} @f64[q]'],
      loops={1:dict(inv=['0<=i<=div n 2',f'forall q. z<=q<z+i -> {nd} {npx} @f64[q]'],var='div n 2-i'),
             2:dict(inv=['0<=i<div n 2',f'forall q. z<=q<z+i -> {nd} {npx} @f64[q]'],diverges=True),
             3:dict(inv=['div (n+1) 2<=j<=n','i=n-1-j',f'forall q. z<=q<z+div n 2 -> {nd} {npx} @f64[q]','mod n 2=1 -> @f64[z+div n 2]=0.0','forall q. z+div (n+1) 2<=q<z+j -> @f64[q] = -. @f64[2*z+n-1-q]'],var='n-j')},
      ghost={'entry':['let ghost ref gx = 0.0'],('after',2):['gx <- x'],('endbody',1):[f'{nd}_i {npx} gx @f64[z+i]'],'exit':[
         'assert { forall q. z<=q<z+div n 2 -> z+div (n+1) 2<=2*z+n-1-q<z+n /\\ 2*z+n-1-(2*z+n-1-q)=q }','assert { mod n 2=1 -> 2*z+n-1-(z+div n 2)=z+div n 2 }']})
SPEC.update({
 'gslib_gauss_nodes':nodes('lp','ld','n','gnode'),
 'lobatto_nodes_aux':nodes('ld','le','(n+1)','lnode'),
 'lobatto_nodes_n':dict(requires=['2<=n','n<=1000000000'],diverges=True,w={'f64':'z<=a<z+n'},prelude=NODEO,
   ensures=['@f64[z] = -. 1.0','@f64[z+n-1]=1.0',MIR,'forall q. z<q<z+div n 2 -> lnode (n-1) @f64[q]'],
   ghost={'exit':['assert { @f64[z] = -. 1.0 /\\ @f64[z+n-1] = 1.0 }','assert { forall q. z+1<=q<z+n-1 -> @f64[2*z+n-1-q] = -. @f64[q] }']}),
})
def quad(nodes_,wf,wdef,nd,lo,extra=[],ex=[]):
    nn=[nd] if nd else []
    return dict(requires=['%d<=n'%lo,'n<=40000',f'z+n<=w \\/ w+n<=z']+extra,diverges=True,w={'f64':'z<=a<z+n \\/ w<=a<w+n'},
   ensures=[MIR,MIRW,f'forall q. w<=q<=w+div (n-1) 2 -> @f64[q] = {wf} n @f64[z+(q-w)]']+nn+(['@f64[z] = -. 1.0','@f64[z+n-1]=1.0'] if lo==2 else []),
   prelude=NODEO+wdef,
   loops={1:dict(inv=['0<=i<=div (n-1) 2+1','forall q. z<=q<z+n -> @f64[q]=h1[q]',f'forall q. w<=q<w+i -> @f64[q] = {wf} n h1[z+(q-w)]'],var='div (n-1) 2+1-i'),
          2:dict(inv=['div (n+1) 2<=j<=n','i=n-1-j','forall q. z<=q<z+n -> @f64[q]=h1[q]',f'forall q. w<=q<=w+div (n-1) 2 -> @f64[q] = {wf} n h1[z+(q-w)]','forall q. w+div (n+1) 2<=q<w+j -> @f64[q]=@f64[2*w+n-1-q]'],var='n-j')},
   ghost={'entry':['let ghost ref gd = 0.0','let ghost ref gz = 0.0'],('aftercall',nodes_,1):['let ghost h1 = @f64'],
     ('enter',1):['assert { @f64[z+i]=h1[z+i] }'],('decl','d'):['gd <- d','gz <- @f64[z+i]'],('endbody',1):ex+[f'{wf}_i n gd gz @f64[w+i]'],
     'exit':['assert { forall q. z<=q<z+n -> @f64[q]=h1[q] /\\ h1[2*z+n-1-q] = -. h1[q] /\\ z<=2*z+n-1-q<z+n }','assert { forall q. w<=q<w+div n 2 -> w+div (n+1) 2<=2*w+n-1-q<w+n /\\ 2*w+n-1-(2*w+n-1-q)=q }','assert { mod n 2=1 -> 2*w+n-1-(w+div n 2)=w+div n 2 }']})
LOBN='n>24 -> (forall q. z<q<z+div n 2 -> lnode (n-1) @f64[q])'
SPEC.update({
 'gslib_gauss_quad':quad('gslib_gauss_nodes','wgauss','''
  function wgauss (n: int) (x: real) : real
  axiom wgauss_def: forall n x. wgauss n x = (2.0 *. (1.0 -. x *. x)) /. ((tofi (n+1) *. lp (n+1) x) *. (tofi (n+1) *. lp (n+1) x))
  let ghost wgauss_i (n: int) (d x r: real) requires { d = tofi (n+1) *. lp (n+1) x /\\ r = (2.0 *. (1.0 -. x *. x)) /. (d *. d) } ensures { r = wgauss n x } = ()
''','forall q. z<=q<z+div n 2 -> gnode n @f64[q]',1,ex=['assert { gz = h1[z+i] }','assert { gd = tofi (n+1) *. lp (n+1) gz }','assert { @f64[w+i] = (2.0 *. (1.0 -. gz *. gz)) /. (gd *. gd) }']),
 'gslib_lobatto_nodes':dict(requires=['2<=n','n<=1000000000','offtab z n'],diverges=True,w={'f64':'z<=a<z+n'},prelude=NODEO,
   ensures=['@f64[z] = -. 1.0','@f64[z+n-1]=1.0',MIR,LOBN]),
 'gslib_lobatto_quad':quad('gslib_lobatto_nodes','wlob','''
  function wlob (n: int) (x: real) : real
  axiom wlob_def: forall n x. wlob n x = 2.0 /. (tofi ((n-1)*n) *. lp (n-1) x *. lp (n-1) x)
  let ghost wlob_i (n: int) (d x r: real) requires { d = lp (n-1) x /\\ r = 2.0 /. (tofi ((n-1)*n) *. d *. d) } ensures { r = wlob n x } = ()
''',LOBN,2,['offtab z n']),
 'lobatto_nodes_fix':dict(requires=['2<=n','n<=24','offtab z n'],w={'f64':'z<=a<z+n'},
   prelude='  axiom gllzt_def: forall k. 0<=k<=20 -> gllzt k = tab_gllz_table k\n  axiom offtab_def: forall z n k. offtab z n -> 0<=k<=20 -> z+n<=tab_gllz_table k \\/ tab_gllz_table k+k+4<=z\n',
   ensures=['@f64[z] = -. 1.0','@f64[z+n-1]=1.0',MIR,'forall k. 1<=k<div n 2 -> @f64[z+k] = -. @@f64[gllzt (n-4)+(k-1)]'],
   loops={1:dict(inv=['1<=i<=div n 2','@f64[z] = -. 1.0','@f64[z+n-1]=1.0','mod n 2=1 -> @f64[z+div n 2]=0.0','forall q. z<q<z+i -> @f64[q] = -. @@f64[gllz+(q-z-1)]'],var='div n 2-i'),
          2:dict(inv=['div (n+1) 2<=j<n','i=n-1-j','@f64[z] = -. 1.0','@f64[z+n-1]=1.0','mod n 2=1 -> @f64[z+div n 2]=0.0','forall q. z<q<z+div n 2 -> @f64[q] = -. @@f64[gllz+(q-z-1)]','forall q. z+div (n+1) 2<=q<z+j -> @f64[2*z+n-1-q] = -. @f64[q]'],var='n-j')},
   ghost={('enter',1):['assert { @f64[gllz+(i-1)] = @@f64[gllz+(i-1)] }'],('enter',2):['assert { @f64[gllz+(i-1)] = @@f64[gllz+(i-1)] }','assert { @f64[z+i] = -. @@f64[gllz+(i-1)] }'],('endbody',2):['assert { @f64[z+j] = -. @f64[z+i] }']}),
})

UM='4294967295'
# --- Lagrange bases
LDEF='''
  (* factors 2(x-z_k); prefix products with halved and quartered derivatives, as the code keeps them; suffix products likewise *)
  function dz (h: map int real) (z: int) (x: real) (k: int) : real
  axiom dz_def: forall h z x k. dz h z x k = mulr 2.0 (x -. h[z+k])
  function lu (h: map int real) (z: int) (x: real) (k: int) : real
  function lu1 (h: map int real) (z: int) (x: real) (k: int) : real
  function lu2 (h: map int real) (z: int) (x: real) (k: int) : real
  axiom lu_0: forall h z x. lu h z x 0 = 1.0 /\\ lu1 h z x 0 = 0.0 /\\ lu2 h z x 0 = 0.0
  axiom lu_s: forall h z x k. k >= 0 -> lu h z x (k+1) = mulr (lu h z x k) (dz h z x k)
  axiom lu1_s: forall h z x k. k >= 0 -> lu1 h z x (k+1) = mulr (lu1 h z x k) (dz h z x k) +. lu h z x k
  axiom lu2_s: forall h z x k. k >= 0 -> lu2 h z x (k+1) = mulr (lu2 h z x k) (dz h z x k) +. mulr 2.0 (lu1 h z x k)
  function lv (h: map int real) (z n: int) (x: real) (k: int) : real
  function lv1 (h: map int real) (z n: int) (x: real) (k: int) : real
  function lv2 (h: map int real) (z n: int) (x: real) (k: int) : real
  axiom lv_0: forall h z n x. lv h z n x (n-1) = 1.0 /\\ lv1 h z n x (n-1) = 0.0 /\\ lv2 h z n x (n-1) = 0.0
  axiom lv_s: forall h z n x k. k < n -> lv h z n x (k-1) = mulr (dz h z x k) (lv h z n x k)
  axiom lv1_s: forall h z n x k. k < n -> lv1 h z n x (k-1) = mulr (dz h z x k) (lv1 h z n x k) +. lv h z n x k
  axiom lv2_s: forall h z n x k. k < n -> lv2 h z n x (k-1) = mulr (dz h z x k) (lv2 h z n x k) +. mulr 2.0 (lv1 h z n x k)
'''
EDEF='''
  (* the specification: product of 2(x-z_j) over k <= j < n, j <> i, and its formal derivatives in x *)
  function ex0 (h: map int real) (z n: int) (x: real) (i k: int) : real
  function ex1 (h: map int real) (z n: int) (x: real) (i k: int) : real
  function ex2 (h: map int real) (z n: int) (x: real) (i k: int) : real
  axiom ex_n: forall h z n x i k. k >= n -> ex0 h z n x i k = 1.0 /\\ ex1 h z n x i k = 0.0 /\\ ex2 h z n x i k = 0.0
  axiom ex_i: forall h z n x i. i < n -> ex0 h z n x i i = ex0 h z n x i (i+1) /\\ ex1 h z n x i i = ex1 h z n x i (i+1) /\\ ex2 h z n x i i = ex2 h z n x i (i+1)
  axiom ex0_s: forall h z n x i k. k < n -> k <> i -> ex0 h z n x i k = 2.0 *. (x -. h[z+k]) *. ex0 h z n x i (k+1)
  axiom ex1_s: forall h z n x i k. k < n -> k <> i -> ex1 h z n x i k = 2.0 *. (x -. h[z+k]) *. ex1 h z n x i (k+1) +. 2.0 *. ex0 h z n x i (k+1)
  axiom ex2_s: forall h z n x i k. k < n -> k <> i -> ex2 h z n x i k = 2.0 *. (x -. h[z+k]) *. ex2 h z n x i (k+1) +. 4.0 *. ex1 h z n x i (k+1)
'''
LLEM=r'''
  val ghost md (x y: real) : unit ensures { mulr x y = x *. y }
  function pt0 (u e0: real) : real
  function pt1 (u u1 e0 e1: real) : real
  function pt2 (u u1 u2 e0 e1 e2: real) : real
  val ghost ptd (u u1 u2 e0 e1 e2: real) : unit ensures { pt0 u e0 = u *. e0 } ensures { pt1 u u1 e0 e1 = 2.0 *. u1 *. e0 +. u *. e1 } ensures { pt2 u u1 u2 e0 e1 e2 = 4.0 *. u2 *. e0 +. 4.0 *. u1 *. e1 +. u *. e2 }
  let ghost le1 (a b d e: real) ensures { a *. d *. e = a *. (d *. e) } = ()
  let ghost le2 (u u1 d e0 e1: real) ensures { 2.0 *. (u1 *. d +. u) *. e0 +. (u *. d) *. e1 = 2.0 *. u1 *. (d *. e0) +. u *. (d *. e1 +. 2.0 *. e0) } = ()
  let ghost le3 (u u1 u2 d e0 e1 e2: real) ensures { 4.0 *. (u2 *. d +. 2.0 *. u1) *. e0 +. 4.0 *. (u1 *. d +. u) *. e1 +. (u *. d) *. e2 = 4.0 *. u2 *. (d *. e0) +. 4.0 *. u1 *. (d *. e1 +. 2.0 *. e0) +. u *. (d *. e2 +. 4.0 *. e1) } = ()
  (* right of i: the suffix products are the specification *)
  let ghost suf_s (v v1 v2 d e0 e1 e2 x z: real) requires { e0 = v /\ e1 = 2.0 *. v1 /\ e2 = 4.0 *. v2 /\ d = 2.0 *. (x -. z) }
    ensures { 2.0 *. (x -. z) *. e0 = d *. v } ensures { 2.0 *. (x -. z) *. e1 +. 2.0 *. e0 = 2.0 *. (d *. v1 +. v) } ensures { 2.0 *. (x -. z) *. e2 +. 4.0 *. e1 = 4.0 *. (d *. v2 +. 2.0 *. v1) } = ()
  let ghost pre_s (u u1 u2 d e0 e1 e2 f0 f1 f2 a a1 a2: real) requires { f0 = d *. e0 /\ f1 = d *. e1 +. 2.0 *. e0 /\ f2 = d *. e2 +. 4.0 *. e1 } requires { a = u *. d /\ a1 = u1 *. d +. u /\ a2 = u2 *. d +. 2.0 *. u1 }
    ensures { pt0 a e0 = pt0 u f0 } ensures { pt1 a a1 e0 e1 = pt1 u u1 f0 f1 } ensures { pt2 a a1 a2 e0 e1 e2 = pt2 u u1 u2 f0 f1 f2 } = ptd a a1 a2 e0 e1 e2; ptd u u1 u2 f0 f1 f2; le1 u u d e0; le2 u u1 d e0 e1; le3 u u1 u2 d e0 e1 e2
  let ghost fin0 (w u v e: real) requires { e = u *. v } ensures { w *. u *. v = w *. e } = ()
  let ghost fin1 (w u u1 v v1 e: real) requires { e = 2.0 *. u1 *. v +. u *. (2.0 *. v1) } ensures { 2.0 *. w *. (u1 *. v +. u *. v1) = w *. e } = ()
  let ghost fin2 (w u u1 u2 v v1 v2 e: real) requires { e = 4.0 *. u2 *. v +. 4.0 *. u1 *. (2.0 *. v1) +. u *. (4.0 *. v2) } ensures { 4.0 *. w *. (u2 *. v +. 2.0 *. u1 *. v1 +. u *. v2) = w *. e } = ()
'''+EDEF+r'''
  let ghost sub3 (d x z e0 e1 e2 f0 f1 f2: real) requires { d = 2.0 *. (x -. z) /\ f0 = 2.0 *. (x -. z) *. e0 /\ f1 = 2.0 *. (x -. z) *. e1 +. 2.0 *. e0 /\ f2 = 2.0 *. (x -. z) *. e2 +. 4.0 *. e1 } ensures { f0 = d *. e0 } ensures { f1 = d *. e1 +. 2.0 *. e0 } ensures { f2 = d *. e2 +. 4.0 *. e1 } = ()
  let rec ghost sufx (h: map int real) (z n: int) (x: real) (i k: int) requires { 0 <= i < k <= n }
    ensures { ex0 h z n x i k = lv h z n x (k-1) } ensures { ex1 h z n x i k = 2.0 *. lv1 h z n x (k-1) } ensures { ex2 h z n x i k = 4.0 *. lv2 h z n x (k-1) } variant { n-k }
   = if k < n then begin sufx h z n x i (k+1);
       let ghost v = lv h z n x k in let ghost v1 = lv1 h z n x k in let ghost v2 = lv2 h z n x k in let ghost d = dz h z x k in let ghost zk = pure { h[z+k] } in
       md 2.0 (x -. zk); md d v; md d v1; md d v2; md 2.0 v1;
       suf_s v v1 v2 d (ex0 h z n x i (k+1)) (ex1 h z n x i (k+1)) (ex2 h z n x i (k+1)) x zk end
  let rec ghost prex (h: map int real) (z n: int) (x: real) (i k: int) requires { 0 <= k <= i < n }
    ensures { pt0 (lu h z x k) (ex0 h z n x i k) = pt0 (lu h z x i) (lv h z n x i) }
    ensures { pt1 (lu h z x k) (lu1 h z x k) (ex0 h z n x i k) (ex1 h z n x i k) = pt1 (lu h z x i) (lu1 h z x i) (lv h z n x i) (2.0 *. lv1 h z n x i) }
    ensures { pt2 (lu h z x k) (lu1 h z x k) (lu2 h z x k) (ex0 h z n x i k) (ex1 h z n x i k) (ex2 h z n x i k) = pt2 (lu h z x i) (lu1 h z x i) (lu2 h z x i) (lv h z n x i) (2.0 *. lv1 h z n x i) (4.0 *. lv2 h z n x i) } variant { i-k }
   = if k = i then begin sufx h z n x i (i+1); assert { ex0 h z n x i k = lv h z n x i /\ ex1 h z n x i k = 2.0 *. lv1 h z n x i /\ ex2 h z n x i k = 4.0 *. lv2 h z n x i } end
     else begin prex h z n x i (k+1);
       let ghost u = lu h z x k in let ghost u1 = lu1 h z x k in let ghost u2 = lu2 h z x k in let ghost d = dz h z x k in let ghost zk = pure { h[z+k] } in
       md 2.0 (x -. zk); md u d; md u1 d; md u2 d; md 2.0 u1;
       assert { d = 2.0 *. (x -. zk) }; assert { lu h z x (k+1) = u *. d }; assert { lu1 h z x (k+1) = u1 *. d +. u }; assert { lu2 h z x (k+1) = u2 *. d +. 2.0 *. u1 };
       let ghost e0 = ex0 h z n x i (k+1) in let ghost e1 = ex1 h z n x i (k+1) in let ghost e2 = ex2 h z n x i (k+1) in let ghost f0 = ex0 h z n x i k in let ghost f1 = ex1 h z n x i k in let ghost f2 = ex2 h z n x i k in
       assert { f0 = 2.0 *. (x -. zk) *. e0 }; assert { f1 = 2.0 *. (x -. zk) *. e1 +. 2.0 *. e0 }; assert { f2 = 2.0 *. (x -. zk) *. e2 +. 4.0 *. e1 };
       sub3 d x zk e0 e1 e2 f0 f1 f2;
       pre_s u u1 u2 d (ex0 h z n x i (k+1)) (ex1 h z n x i (k+1)) (ex2 h z n x i (k+1)) (ex0 h z n x i k) (ex1 h z n x i k) (ex2 h z n x i k) (lu h z x (k+1)) (lu1 h z x (k+1)) (lu2 h z x (k+1)) end
  let ghost fin (h: map int real) (z n: int) (x: real) (i: int) (w: real) requires { 0 <= i < n }
    ensures { mulr (mulr w (lu h z x i)) (lv h z n x i) = mulr w (ex0 h z n x i 0) }
    ensures { mulr (mulr 2.0 w) (mulr (lu1 h z x i) (lv h z n x i) +. mulr (lu h z x i) (lv1 h z n x i)) = mulr w (ex1 h z n x i 0) }
    ensures { mulr (mulr 4.0 w) (mulr (lu2 h z x i) (lv h z n x i) +. mulr (mulr 2.0 (lu1 h z x i)) (lv1 h z n x i) +. mulr (lu h z x i) (lv2 h z n x i)) = mulr w (ex2 h z n x i 0) }
   = prex h z n x i 0; md w (ex0 h z n x i 0); md w (ex1 h z n x i 0); md w (ex2 h z n x i 0);
     let ghost u = lu h z x i in let ghost u1 = lu1 h z x i in let ghost u2 = lu2 h z x i in let ghost v = lv h z n x i in let ghost v1 = lv1 h z n x i in let ghost v2 = lv2 h z n x i in
     ptd 1.0 0.0 0.0 (ex0 h z n x i 0) (ex1 h z n x i 0) (ex2 h z n x i 0); ptd u u1 u2 v (2.0 *. v1) (4.0 *. v2); assert { lu h z x 0 = 1.0 /\ lu1 h z x 0 = 0.0 /\ lu2 h z x 0 = 0.0 };
     assert { ex0 h z n x i 0 = u *. v }; assert { ex1 h z n x i 0 = 2.0 *. u1 *. v +. u *. (2.0 *. v1) }; assert { ex2 h z n x i 0 = 4.0 *. u2 *. v +. 4.0 *. u1 *. (2.0 *. v1) +. u *. (4.0 *. v2) };
     md w u; md (w *. u) v; fin0 w u v (ex0 h z n x i 0);
     md 2.0 w; md u1 v; md u v1; md (2.0 *. w) (u1 *. v +. u *. v1); fin1 w u u1 v v1 (ex1 h z n x i 0);
     md 4.0 w; md u2 v; md 2.0 u1; md (2.0 *. u1) v1; md u v2; md (4.0 *. w) (u2 *. v +. 2.0 *. u1 *. v1 +. u *. v2); fin2 w u u1 u2 v v1 v2 (ex2 h z n x i 0)
'''
LSPEC={}
D='dz @@f64 data x'
def st(lst):
    return lst
KEEPZ='forall q. data<=q<data+2*n -> @f64[q]=@@f64[q]'
ID='forall q. d<=q<d+n -> @f64[q]=dz @@f64 data x (q-d)'
def U(s,u,hi='n'): return f'forall q. {u}<=q<{u}+{hi} -> @f64[q]=lu{s} @@f64 data x (q-{u})'
def V(s,v,lo='0'): return f'forall q. {v}+{lo}<=q<{v}+n -> @f64[q]=lv{s} @@f64 data n x (q-{v})'
def P(s,p,hi='n'): return f'forall q. {p}<=q<{p}+{hi} -> @f64[q]=mulr @@f64[data+n+(q-{p})] (ex{s} @@f64 data n x (q-{p}) 0)'
A0=[KEEPZ,ID]
A1=A0+[U('','u0'),V('','v0')]
A2=A1+[P('0','p')]
B0=A2+['p1=p+n','u1=v0+n','v1=u1+n']
B1=B0+[U('1','u1'),V('1','v1')]
B2=B1+[P('1','p1')]
C1=B2+[U('2','u2'),V('2','v2')]
up=lambda inv,s,u:dict(inv=['0<=i<=n-1']+inv+[U(s,u,'i+1')],var='n-i')
dn=lambda inv,s,v:dict(inv=['0<=i<=n-1']+inv+[V(s,v,'i')],var='i')
ev=lambda inv,s,p:dict(inv=['0<=i<=n']+inv+[P(s,p,'i')],var='n-i')
LDV=lambda s,u,v:[f'assert {{ @f64[{u}+i]=lu{s} @@f64 data x i /\\ @f64[{v}+i]=lv{s} @@f64 data n x i /\\ @f64[data+n+i]=@@f64[data+n+i] }}']
FIN=['fin @@f64 data n x i @@f64[data+n+i]']
LSPEC['lagrange_eval']=dict(requires=['1<=n','9*n<='+UM,'p+3*n<=data \\/ data+9*n<=p'],prelude=LLEM,
  w={'f64':'p<=a<p+n \\/ (der>0 /\\ p+n<=a<p+2*n) \\/ (der>1 /\\ p+2*n<=a<p+3*n) \\/ data+2*n<=a<data+9*n'},
  ensures=[P('0','p'),'der>0 -> '+P('1','(p+n)').replace('forall','(forall')+')','der>1 -> '+P('2','(p+2*n)').replace('forall','(forall')+')'],
  loops={1:dict(inv=['0<=i<=n',KEEPZ,'forall q. d<=q<d+i -> @f64[q]=dz @@f64 data x (q-d)'],var='n-i'),
         2:up(A0,'','u0'),3:dn(A0+[U('','u0')],'','v0'),4:ev(A1,'0','p'),
         5:up(B0,'1','u1'),6:dn(B0+[U('1','u1')],'1','v1'),7:ev(B1,'1','p1'),
         8:up(B2,'2','u2'),9:dn(B2+[U('2','u2')],'2','v2'),10:ev(C1,'2','p2')},
  ghost={('before',3):['assert { lv @@f64 data n x (n-1) = 1.0 }'],('before',6):['assert { lv1 @@f64 data n x (n-1) = 0.0 }'],('before',9):['assert { lv2 @@f64 data n x (n-1) = 0.0 }'],
         ('enter',3):['assert { lv @@f64 data n x (i-1) = mulr (dz @@f64 data x i) (lv @@f64 data n x i) }'],
         ('enter',6):['assert { lv1 @@f64 data n x (i-1) = mulr (dz @@f64 data x i) (lv1 @@f64 data n x i) +. lv @@f64 data n x i }'],
         ('enter',9):['assert { lv2 @@f64 data n x (i-1) = mulr (dz @@f64 data x i) (lv2 @@f64 data n x i) +. mulr 2.0 (lv1 @@f64 data n x i) }'],
         ('enter',4):LDV('','u0','v0'),('enter',7):LDV('','u0','v0')+LDV('1','u1','v1'),('enter',10):LDV('','u0','v0')+LDV('1','u1','v1')+LDV('2','u2','v2'),
         ('endbody',4):['assert { @f64[p+i] = mulr (mulr @@f64[data+n+i] (lu @@f64 data x i)) (lv @@f64 data n x i) }']+FIN,
         ('endbody',7):['assert { @f64[p1+i] = mulr (mulr 2.0 @@f64[data+n+i]) (mulr (lu1 @@f64 data x i) (lv @@f64 data n x i) +. mulr (lu @@f64 data x i) (lv1 @@f64 data n x i)) }']+FIN,
         ('endbody',10):['assert { @f64[p2+i] = mulr (mulr 4.0 @@f64[data+n+i]) (mulr (lu2 @@f64 data x i) (lv @@f64 data n x i) +. mulr (mulr 2.0 (lu1 @@f64 data x i)) (lv1 @@f64 data n x i) +. mulr (lu @@f64 data x i) (lv2 @@f64 data n x i)) }']+FIN})

# --- set-up of the bases: weights that make them cardinal
CDEF=EDEF+r'''
  let rec ghost exx (h g: map int real) (z n: int) (x: real) (i k: int) requires { forall q. z <= q < z+n -> h[q] = g[q] } requires { 0 <= k }
    ensures { ex0 h z n x i k = ex0 g z n x i k } variant { n-k }
   = if k < n then begin exx h g z n x i (k+1); if k <> i then begin assert { h[z+k] = g[z+k] }; assert { ex0 h z n x i k = 2.0 *. (x -. h[z+k]) *. ex0 h z n x i (k+1) }; assert { ex0 g z n x i k = 2.0 *. (x -. g[z+k]) *. ex0 g z n x i (k+1) } end end
  let ghost zf (a e r: real) requires { r = 2.0 *. a *. e } requires { a = 0.0 } ensures { r = 0.0 } = ()
  let ghost zs (a e r: real) requires { r = 2.0 *. a *. e } requires { e = 0.0 } ensures { r = 0.0 } = ()
  let ghost nz2 (a e r: real) requires { a <> 0.0 /\ e <> 0.0 /\ r = 2.0 *. a *. e } ensures { r <> 0.0 } = ()
  let ghost wone (w e r: real) requires { e <> 0.0 /\ w = 1.0 /. e /\ r = w *. e } ensures { r = 1.0 } = ()
  let ghost wzer (w e r: real) requires { e = 0.0 /\ r = w *. e } ensures { r = 0.0 } = ()
  let rec ghost exz (h: map int real) (z n: int) (i j m: int) requires { 0 <= m <= j < n /\ j <> i }
    ensures { ex0 h z n h[z+j] i m = 0.0 } variant { n-m }
   = if m = j then zf (h[z+j] -. h[z+m]) (ex0 h z n h[z+j] i (m+1)) (ex0 h z n h[z+j] i m)
     else begin exz h z n i j (m+1); if m <> i then zs (h[z+j] -. h[z+m]) (ex0 h z n h[z+j] i (m+1)) (ex0 h z n h[z+j] i m) end
  predicate distn (h: map int real) (z n: int) = forall i j. 0 <= i < n -> 0 <= j < n -> i <> j -> h[z+i] <> h[z+j]
  let rec ghost exn (h: map int real) (z n: int) (i m: int) requires { 0 <= i < n /\ 0 <= m } requires { distn h z n }
    ensures { ex0 h z n h[z+i] i m <> 0.0 } variant { n-m }
   = if m < n then begin exn h z n i (m+1); if m <> i then nz2 (h[z+i] -. h[z+m]) (ex0 h z n h[z+i] i (m+1)) (ex0 h z n h[z+i] i m) end
  function rcp (e: real): real
  val ghost rcpd (e: real): unit ensures { rcp e = 1.0 /. e }
  (* cwv: weight i times product i at node j *)
  function cwv (h: map int real) (z n: int) (w: real) (i j: int): real
  val ghost cwd (h: map int real) (z n: int) (w: real) (i j: int): unit ensures { cwv h z n w i j = w *. ex0 h z n h[z+j] i 0 }
  (* with the weights the code computes, basis function i is one at node i and zero at the others *)
  let ghost cardinal (h: map int real) (z n: int) (w: real) (i j: int) requires { 0 <= i < n /\ 0 <= j < n } requires { distn h z n } requires { w = rcp (ex0 h z n h[z+i] i 0) }
    ensures { cwv h z n w i j = (if i = j then 1.0 else 0.0) }
    = cwd h z n w i j; if i = j then begin exn h z n i 0; rcpd (ex0 h z n h[z+i] i 0); wone w (ex0 h z n h[z+i] i 0) (cwv h z n w i j) end else begin exz h z n i j 0; wzer w (ex0 h z n h[z+j] i 0) (cwv h z n w i j) end
  predicate cardr (h0 h: map int real) (w z n i: int)
  val ghost cardrd (h0 h: map int real) (w z n i: int): unit ensures { cardr h0 h w z n i <-> forall j. 0 <= j < n -> cwv h0 z n h[w+i] i j = (if i = j then 1.0 else 0.0) }
  predicate wtok (h0 h: map int real) (w z n i: int)
  val ghost wtokd (h0 h: map int real) (w z n i: int): unit ensures { wtok h0 h w z n i <-> h[w+i] = rcp (ex0 h0 z n h0[z+i] i 0) }
  let ghost cardrow (h0 h: map int real) (w z n i: int) requires { 0 <= i < n /\ distn h0 z n /\ wtok h0 h w z n i } ensures { cardr h0 h w z n i }
   = wtokd h0 h w z n i; for j_ = 0 to n-1 do invariant { forall j. 0 <= j < j_ -> cwv h0 z n h[w+i] i j = (if i = j then 1.0 else 0.0) } cardinal h0 z n h[w+i] i j_ done; cardrd h0 h w z n i
  let ghost cardall (h0 h: map int real) (w z n: int) requires { forall i. 0 <= i < n -> wtok h0 h w z n i } requires { distn h0 z n } ensures { forall i. 0 <= i < n -> cardr h0 h w z n i }
   = for i_ = 0 to n-1 do invariant { forall i. 0 <= i < i_ -> cardr h0 h w z n i } cardrow h0 h w z n i_ done
'''
def dj(a,la,b,lb): return f'({a}+{la}<={b} \\/ {b}+{lb}<={a})'
SC='data+2*n<=a<data+2*n+sl'
CEXT={'fp_lagrange_fun':dict(params=['p','data','n','d','x'],types=['double *','double *','unsigned','int','double'],ghostparams='(ghost zp: int) (ghost wp: int) (ghost sl: int)',
   requires=['0<=d<=2','0<=sl',dj('p','n*(d+1)','zp','n'),dj('p','n*(d+1)','wp','n'),dj('(data+2*n)','sl','zp','n'),dj('(data+2*n)','sl','wp','n'),dj('(data+2*n)','sl','p','n*(d+1)')],
   w={'f64':'p<=a<p+n*(d+1) \\/ '+SC},ensures=['forall q. p<=q<p+n -> @f64[q]=@@f64[wp+(q-p)] *. ex0 @@f64 zp n x (q-p) 0'],
   why='every evaluation function gives weight times product; lagrange_eval does by its own contract (scratch 7n), the specialised ones are checked natively')}
WI='forall q. w<=q<w+i -> @f64[q]=rcp (ex0 @@f64 z n @@f64[z+(q-w)] (q-w) 0)'
CSPEC={'lagrange_coef':dict(requires=['0<=sl',dj('p','n','z','n'),dj('p','n','w','n'),dj('w','n','z','n'),dj('(data+2*n)','sl','z','n'),dj('(data+2*n)','sl','w','n'),dj('(data+2*n)','sl','p','n')],
   ghostparams='(ghost sl: int)',callghost={'fp_lagrange_fun':'z w sl'},
   w={'f64':'p<=a<p+n \\/ w<=a<w+n \\/ '+SC},
   ensures=[WI.replace('w+i','w+n'),'distn @@f64 z n -> (forall i. 0<=i<n -> cardr @@f64 @f64 w z n i)'],
   loops={1:dict(inv=['0<=i<=n','forall q. w<=q<w+i -> @f64[q]=1.0'],var='n-i'),
          2:dict(inv=['0<=i<=n','forall q. z<=q<z+n -> @f64[q]=@@f64[q]',WI,'forall q. w+i<=q<w+n -> @f64[q]=1.0'],var='n-i')},
   ghost={('enter',2):['let ghost hb = @f64','assert { @f64[z+i]=@@f64[z+i] }','assert { @f64[w+i]=1.0 }','exx hb h0_f64 z n @@f64[z+i] i 0'],
          ('endbody',2):['assert { @f64[p+i] = ex0 @@f64 z n @@f64[z+i] i 0 }','rcpd (ex0 @@f64 z n @@f64[z+i] i 0)','assert { @f64[w+i] = rcp (ex0 @@f64 z n @@f64[z+i] i 0) }','assert { forall q. w<=q<w+i -> @f64[q] = hb[q] }'],
     'exit':['if pure { distn @@f64 z n } then begin for i_ = 0 to n-1 do invariant { forall i. 0<=i<i_ -> wtok h0_f64 @f64 w z n i } wtokd h0_f64 @f64 w z n i_; assert { let q = w+i_ in @f64[q] = rcp (ex0 @@f64 z n @@f64[z+(q-w)] (q-w) 0) } done; cardall h0_f64 @f64 w z n end']})}
CSPEC['lagrange_coef']['note']='the weights are the reciprocals of the products at the nodes; at distinct nodes that makes the basis cardinal'
MLP='  function mlc (bytes: int) : int\n'
CEXT['smalloc']=dict(params=['size'],types=['unsigned long'],take=[0],ret='void *',w={'f64':'mlc size<=8*a<mlc size+size'},ensures=['result=mlc size','mod result 8=0'],why='smalloc: contract proved for C14; here the answer is an aligned block apart from the caller\'s arrays')
CEXT['free']=dict(params=['q'],types=['void *'],why='releases the block')
MB='div (mlc (n*8)) 8'
CSPEC['gslib_lagrange_setup']=dict(requires=[dj('data','9*n','z','n'),'n<=100000000']+[dj(MB,'n',x,l) for x,l in(('z','n'),('data','9*n'))],callghost={'lagrange_coef':'(7*n)'},
   w={'f64':f'data<=a<data+9*n \\/ mlc (n*8)<=8*a<mlc (n*8)+n*8'},
   ensures=['forall q. data<=q<data+n -> @f64[q]=@@f64[z+(q-data)]','result=fn_lagrange_eval','forall i. 0<=i<n -> wtok @@f64 @f64 (data+n) z n i','distn @@f64 z n -> (forall i. 0<=i<n -> cardr @@f64 @f64 (data+n) z n i)'],
   ghost={('beforecall','lagrange_coef',1):['let ghost h1 = @f64','assert { forall q. z<=q<z+n -> h1[q]=@@f64[q] }'],
     'return':['for i_ = 0 to n-1 do invariant { forall i. 0<=i<i_ -> wtok h0_f64 @f64 (data+n) z n i } wtokd h0_f64 @f64 (data+n) z n i_; exx h1 h0_f64 z n @@f64[z+i_] i_ 0; assert { let q = data+n+i_ in @f64[q] = rcp (ex0 h1 z n h1[z+(q-(data+n))] (q-(data+n)) 0) } done','if pure { distn h0_f64 z n } then cardall h0_f64 @f64 (data+n) z n']})
CEXT['gslib_lobatto_nodes']=dict(params=['z','n'],types=['double *','int'],w={'f64':'z<=a<z+n'},requires=['2<=n','n<=1000000000'],why='contract proved in poly.c')
ML='div (mlc (2*n*8)) 8'
CSPEC['gslib_lagrange_size']=dict(requires=['9*n<=4294967295'],ensures=['result=9*n'])
CSPEC['gslib_gll_lag_size']=dict(requires=['9*n<=4294967295'],ensures=['result=(if n<=24 then n else 9*n)'])
DS='(if n<=24 then n else 9*n)'
CSPEC['gslib_gll_lag_setup']=dict(requires=['n<=100000']+[dj(ML,'2*n','data','9*n')],callghost={'lagrange_coef':'(if n<=24 then 0 else 7*n)'},
   w={'f64':f'data<=a<data+{DS} \\/ mlc (2*n*8)<=8*a<mlc (2*n*8)+2*n*8'},
   ensures=['n<2 -> result=0 /\\ @f64=@@f64','n>24 -> result=fn_lagrange_eval','n>24 -> distn @f64 data n -> (forall i. 0<=i<n -> wtok @f64 @f64 (data+n) data n i)','n>24 -> distn @f64 data n -> (forall i. 0<=i<n -> cardr @f64 @f64 (data+n) data n i)'],
   ghost={'entry':['let ghost ref h1 = h_f64'],('beforecall','lagrange_coef',1):['h1 <- @f64'],
     'return':['if pure { n > 24 } then begin assert { forall q. data<=q<data+n -> h1[q]=@f64[q] }; for i_ = 0 to n-1 do invariant { forall i. 0<=i<i_ -> wtok @f64 @f64 (data+n) data n i } wtokd @f64 @f64 (data+n) data n i_; exx h1 @f64 data n @f64[data+i_] i_ 0; assert { let q = data+n+i_ in @f64[q] = rcp (ex0 h1 data n h1[data+(q-(data+n))] (q-(data+n)) 0) } done; if pure { distn @f64 data n } then cardall @f64 @f64 (data+n) data n end']})
def units():
    return [dict(file='src/poly.c',name='poly.c',specs=SPEC,real='total',prelude=LEG),
            dict(file='src/poly.c',name='poly.c[lag]',specs=LSPEC,real='op',prelude=LDEF),
            dict(file='src/poly.c',name='poly.c[coef]',specs=CSPEC,real='total',extern=CEXT,prelude=CDEF+MLP)]
