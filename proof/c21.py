"""C21: the search in one element: the trust-region steps and the acceptance test."""
# Products are opaque (mulr) in the functions; a lemma reveals those it names, innermost first.
PRE=r"""
  val ghost mrd (x y x2 y2: real) : unit requires { x = x2 } requires { y = y2 } ensures { mulr x y = x2 *. y2 }
  function qp (a y t: real) : real = (t*.a -. 2.0*.y)*.t     (* the quadratic model of an edge step *)
  function qm (a y t: real) : real                            (* the same, its definition used only where it is named *)
  val ghost qmv (a y t: real) : unit ensures { qm a y t = qp a y t }
  function elo (od tr: real) : real = if od -. tr >. -. 1.0 then -. tr else -. 1.0 -. od     (* the range of the step *)
  function ehi (od tr: real) : real = if od +. tr <. 1.0 then tr else 1.0 -. od
  function qmm (a y t: real) : real = mulr (mulr t a -. mulr 2.0 y) t
"""
PURE=r"""
  let ghost invd (d i: real) requires { d <> 0.0 } requires { i = 1.0 /. d } ensures { i *. d = 1.0 } = ()
  let ghost ls2p (a0 a1 a2 a3 y0 y1 d i x0 x1: real) requires { d = a0*.a3-.a1*.a2 } requires { i*.d = 1.0 } requires { x0 = i*.(a3*.y0-.a1*.y1) } requires { x1 = i*.(a0*.y1-.a2*.y0) }
    ensures { a0*.x0+.a1*.x1 = y0 /\ a2*.x0+.a3*.x1 = y1 }
    = assert { a0*.x0+.a1*.x1 = i*.(a0*.a3-.a1*.a2)*.y0 }; assert { a2*.x0+.a3*.x1 = i*.(a0*.a3-.a1*.a2)*.y1 }
  let ghost ls3p (a0 a1 a2 b0 b1 b2 c0 c1 c2 y0 y1 y2 d i x0 x1 x2: real)
    requires { d = a0*.(b1*.c2-.b2*.c1)+.a1*.(b2*.c0-.b0*.c2)+.a2*.(b0*.c1-.b1*.c0) } requires { i*.d = 1.0 }
    requires { x0 = i*.((b1*.c2-.b2*.c1)*.y0+.(a2*.c1-.a1*.c2)*.y1+.(a1*.b2-.a2*.b1)*.y2) }
    requires { x1 = i*.((b2*.c0-.b0*.c2)*.y0+.(a0*.c2-.a2*.c0)*.y1+.(a2*.b0-.a0*.b2)*.y2) }
    requires { x2 = i*.((b0*.c1-.b1*.c0)*.y0+.(a1*.c0-.a0*.c1)*.y1+.(a0*.b1-.a1*.b0)*.y2) }
    ensures { a0*.x0+.a1*.x1+.a2*.x2 = y0 } ensures { b0*.x0+.b1*.x1+.b2*.x2 = y1 } ensures { c0*.x0+.c1*.x1+.c2*.x2 = y2 }
    = assert { a0*.x0+.a1*.x1+.a2*.x2 = i*.(a0*.(b1*.c2-.b2*.c1)+.a1*.(b2*.c0-.b0*.c2)+.a2*.(b0*.c1-.b1*.c0))*.y0 };
      assert { b0*.x0+.b1*.x1+.b2*.x2 = i*.(a0*.(b1*.c2-.b2*.c1)+.a1*.(b2*.c0-.b0*.c2)+.a2*.(b0*.c1-.b1*.c0))*.y1 };
      assert { c0*.x0+.c1*.x1+.c2*.x2 = i*.(a0*.(b1*.c2-.b2*.c1)+.a1*.(b2*.c0-.b0*.c2)+.a2*.(b0*.c1-.b1*.c0))*.y2 }
"""
PW=r"""
  let ghost pw (d: int) ensures { d=0 -> P.power 2 (2*d) = 1 } ensures { d=1 -> P.power 2 (2*d) = 4 } ensures { d=2 -> P.power 2 (2*d) = 16 }
    = assert { P.power 2 0 = 1 }; assert { P.power 2 1 = 2 }; assert { P.power 2 2 = 4 }; assert { P.power 2 3 = 8 }; assert { P.power 2 4 = 16 }
"""
EDGE=r"""
  let ghost o_in (a y d t: real) requires { a >. 0.0 } requires { d*.a = y } ensures { qp a y d <=. qp a y t }
    = assert { qp a y t -. qp a y d = a*.((t-.d)*.(t-.d)) }; assert { (t-.d)*.(t-.d) >=. 0.0 }
  let ghost o_l (a y l t g: real) requires { l <=. t } requires { g = a*.(t+.l)-.2.0*.y } requires { g >=. 0.0 } ensures { qp a y l <=. qp a y t }
    = assert { qp a y t -. qp a y l = (t-.l)*.g }
  let ghost o_u (a y u t g: real) requires { t <=. u } requires { g = a*.(t+.u)-.2.0*.y } requires { g <=. 0.0 } ensures { qp a y u <=. qp a y t }
    = assert { qp a y t -. qp a y u = (u-.t)*.(-.g) }
  let ghost o_neg (a y l u t: real) requires { l <=. t <=. u } requires { a <=. 0.0 } ensures { qp a y l <=. qp a y t \/ qp a y u <=. qp a y t }
    = assert { a*.(t+.u)-.2.0*.y -. (a*.(t+.l)-.2.0*.y) = a*.(u-.l) };
      if any bool ensures { result <-> a*.(t+.l)-.2.0*.y >=. 0.0 } then o_l a y l t (any real ensures { result = a*.(t+.l)-.2.0*.y })
      else o_u a y u t (any real ensures { result = a*.(t+.u)-.2.0*.y })
  let ghost o_lo (a y d l t: real) requires { l <=. t } requires { d <=. l } requires { a >. 0.0 } requires { d*.a = y } ensures { qp a y l <=. qp a y t }
    = assert { a*.(t+.l)-.2.0*.y = a*.(t+.l-.2.0*.d) }; assert { a*.(t+.l-.2.0*.d) >=. 0.0 }; o_l a y l t (any real ensures { result = a*.(t+.l)-.2.0*.y })
  let ghost o_hi (a y d u t: real) requires { t <=. u } requires { u <=. d } requires { a >. 0.0 } requires { d*.a = y } ensures { qp a y u <=. qp a y t }
    = assert { a*.(t+.u)-.2.0*.y = a*.(t+.u-.2.0*.d) }; assert { a*.(2.0*.d-.t-.u) >=. 0.0 }; o_u a y u t (any real ensures { result = a*.(t+.u)-.2.0*.y })
  let ghost divd (a y d: real) requires { a >. 0.0 } requires { d = y /. a } ensures { d*.a = y } = ()
  predicate eok (a y od tr dr: real)
  predicate eokp (a y od tr dr: real) =
       (a >. 0.0 /\ dr = y /. a)
    \/ ((a <=. 0.0 \/ RA.abs (y /. a) >=. tr \/ RA.abs (od +. y /. a) >=. 1.0) /\ qm a y dr <=. qm a y (elo od tr) /\ qm a y dr <=. qm a y (ehi od tr))
  val ghost eokd (a y od tr dr: real) : unit ensures { eok a y od tr dr <-> eokp a y od tr dr }
  let lemma eopt (a y od tr dr t: real) requires { -. 1.0 <=. od <=. 1.0 } requires { elo od tr <=. t <=. ehi od tr } requires { tr >=. 0.0 } requires { eok a y od tr dr } ensures { qm a y dr <=. qm a y t }
    = eokd a y od tr dr; let ghost l = any real ensures { result = elo od tr } in let ghost u = any real ensures { result = ehi od tr } in let ghost d = any real ensures { result = y /. a } in
      qmv a y t; qmv a y dr; qmv a y l; qmv a y u;
      if any bool ensures { result <-> a <=. 0.0 } then o_neg a y l u t
      else begin divd a y d;
        if any bool ensures { result <-> dr = d } then o_in a y d t
        else if any bool ensures { result <-> d <=. l } then o_lo a y d l t
        else begin assert { u <=. d }; o_hi a y d u t end
      end
  let ghost qmd (a y t: real) ensures { qmm a y t = qm a y t } = mrd t a t a; mrd 2.0 y 2.0 y; mrd (mulr t a -. mulr 2.0 y) t (t*.a-.2.0*.y) t; qmv a y t
  let ghost edge (a y od tr dr v: real) requires { v = qmm a y dr }
    requires { (a >. 0.0 /\ dr = y /. a) \/ ((a <=. 0.0 \/ RA.abs (y /. a) >=. tr \/ RA.abs (od +. y /. a) >=. 1.0) /\ v <=. qmm a y (elo od tr) /\ v <=. qmm a y (ehi od tr)) }
    ensures { eok a y od tr dr } ensures { v = qm a y dr } = qmd a y dr; qmd a y (elo od tr); qmd a y (ehi od tr); eokd a y od tr dr
"""
def m(a,b): return ('*',a,b)
def ad(a,b): return ('+',a,b)
def sb(a,b): return ('-',a,b)
def mo(e):      # with opaque products
    if isinstance(e,str): return e
    op,a,b=e
    return f'(mulr {mo(a)} {mo(b)})' if op=='*' else f'({mo(a)} {op}. {mo(b)})'
def pl(e):      # plain
    if isinstance(e,str): return e
    op,a,b=e
    return f'({pl(a)} {op}. {pl(b)})'
def rv(e,out):  # the calls that reveal the products of e
    if isinstance(e,str): return out
    rv(e[1],out); rv(e[2],out)
    if e[0]=='*':
        c=f'mrd {mo(e[1])} {mo(e[2])} {pl(e[1])} {pl(e[2])}'
        if c not in out: out.append(c)
    return out
def lem(name,params,eqs,req,ens,body):
    o=f'  let ghost {name} ({params}: real)\n'; c=[]
    for l,r in eqs: o+=f'    requires {{ {l} = {mo(r)} }}\n'; rv(r,c)
    for e in req: o+=f'    requires {{ {e} }}\n'
    for e in ens: o+=f'    ensures {{ {e} }}\n'
    return o+'    = '+';\n      '.join(c+body)+'\n'
mi=lambda p,q,r,t:sb(m(p,q),m(r,t))
L2=lem('ls2','a0 a1 a2 a3 y0 y1 d i x0 x1',[('d',mi('a0','a3','a1','a2')),('x0',m('i',mi('a3','y0','a1','y1'))),('x1',m('i',mi('a0','y1','a2','y0')))],
  ['d <> 0.0','i = 1.0 /. d'],['mulr a0 x0 +. mulr a1 x1 = y0','mulr a2 x0 +. mulr a3 x1 = y1'],[f'mrd {a} {x} {a} {x}' for a,x in zip('a0 a1 a2 a3'.split(),'x0 x1 x0 x1'.split())]+['invd d i','ls2p a0 a1 a2 a3 y0 y1 d i x0 x1'])
ROWS=[(('b1','c2','b2','c1'),('a2','c1','a1','c2'),('a1','b2','a2','b1')),(('b2','c0','b0','c2'),('a0','c2','a2','c0'),('a2','b0','a0','b2')),(('b0','c1','b1','c0'),('a1','c0','a0','c1'),('a0','b1','a1','b0'))]
A9='a0 a1 a2 b0 b1 b2 c0 c1 c2'
D3=lambda q:ad(ad(m(q[0],mi(q[4],q[8],q[5],q[7])),m(q[1],mi(q[5],q[6],q[3],q[8]))),m(q[2],mi(q[3],q[7],q[4],q[6])))
D2=lambda q:mi(q[0],q[3],q[1],q[2])
L3=lem('ls3',A9+' y0 y1 y2 d i x0 x1 x2',[('d',D3(A9.split()))]+[(f'x{k}',m('i',ad(ad(m(mi(*r[0]),'y0'),m(mi(*r[1]),'y1')),m(mi(*r[2]),'y2')))) for k,r in enumerate(ROWS)],
  ['d <> 0.0','i = 1.0 /. d'],[f'mulr {a}0 x0 +. mulr {a}1 x1 +. mulr {a}2 x2 = y{k}' for k,a in enumerate('abc')],[f'mrd {a}{k} x{k} {a}{k} x{k}' for a in 'abc' for k in range(3)]+['invd d i',f'ls3p {A9} y0 y1 y2 d i x0 x1 x2'])
def unit(D):
    P=f'findpts_el_pt_{D}'; R=lambda q:f'sub_{P}_r {q}'; X=lambda q:f'sub_{P}_x {q}'; O=lambda q:f'sub_{P}_oldr {q}'
    lay=lambda q:f'{R(q)} = {X(q)}+{D} /\\ {O(q)} = {X(q)}+{2*D}'
    LAY=[lay('out'),lay('p'),f'{X("out")}+{3*D} <= {X("p")} \\/ {X("p")}+{3*D} <= {X("out")}','out <> p']
    F='@f64'; dns=['dn'] if D==2 else ['dn1','dn2']
    SH=32 if D==2 else 128; C=16 if D==2 else 64
    S={}
    def sys(na,n,ix,pre):
        ix=list(ix); h=[f'h0_f64[vA+{k}]' for k in ix]; fa=[f'@f64[vA+{k}]' for k in ix]; det=D2 if n==2 else D3
        return dict(requires=[f'x+{n}<=vA \\/ vA+{na}<=x',f'x+{n}<=y \\/ y+{n}<=x',mo(det(fa))+' <> 0.0'],w={'f64':f'x<=a<x+{n}'},prelude=pre,
          ensures=[' +. '.join(f'mulr {fa[n*i+j]} @f64[x+{j}]' for j in range(n))+f' = @f64[y+{i}]' for i in range(n)],
          ghost={'exit':[f'ls{n} '+' '.join(h)+' '+' '.join(f'h0_f64[y+{i}]' for i in range(n))+' '+mo(det(h))+' idet '+' '.join(f'h_f64[x+{i}]' for i in range(n))]})
    # linear systems
    if D==2:
        S['lin_solve_2']=sys(4,2,[0,1,2,3],PURE+L2)
    else:
        S['lin_solve_sym_2']=sys(3,2,[0,1,1,2],PURE+L2)
        S['lin_solve_3']=sys(9,3,range(9),PURE+L3)
    # acceptance of the previous step
    d2=' +. '.join(f'mulr @@f64[resid+{k}] @@f64[resid+{k}]' for k in range(D))
    rej=f'(@@{P}_dist2[p] -. ({d2}) <. mulr 0.01 @@{P}_dist2p[p])'
    ab=lambda k:f'RA.abs (@@f64[{R("p")}+{k}] -. @@f64[{O("p")}+{k}])'
    FK=[f'(div @@{P}_flags[p] {SH})']
    for k in range(D): FK.append(f'(if @@f64[{R("p")}+{k}] = @@f64[{O("p")}+{k}] then bor {FK[-1]} (band @@{P}_flags[p] {3*4**k}) else {FK[-1]})')
    ngl=f'@@{P}_dist2p[p] <. mulr ({d2}) tol'
    S['reject_prior_step_q']=dict(requires=LAY+[f'resid+{D}<={X("out")} \\/ {X("out")}+{3*D}<=resid'],
      loops={1:dict(inv=['0<=d<=%d'%D]+[f'd={k} -> @{P}_flags[out] = {FK[k]}' for k in range(D+1)],var='%d-d'%D)},ghost={('begin',1):['pw d']},prelude=PW,w={'f64':f'{X("out")}<=a<{X("out")}+{3*D}',f'{P}_index':'a=out',f'{P}_dist2':'a=out',f'{P}_dist2p':'a=out',f'{P}_tr':'a=out',f'{P}_flags':'a=out'},
      ensures=[f'{F}[{X("out")}+{k}]=@@f64[{X("p")}+{k}] /\\ {F}[{O("out")}+{k}]=@@f64[{R("p")}+{k}]' for k in range(D)]+
        [f'@{P}_index[out]=@@{P}_index[p]',f'result=1 <-> {rej}','result=0 \\/ result=1',
         f'result=0 -> @{P}_dist2[out] = {d2}',
         f'result=0 -> @{P}_tr[out] = (if @@{P}_dist2[p] -. ({d2}) >=. mulr 0.9 @@{P}_dist2p[p] then mulr 2.0 @@{P}_tr[p] else @@{P}_tr[p])',
         f'result=1 -> @{P}_dist2[out] = @@{P}_dist2[p]']+
        [f'result=1 -> {F}[{R("out")}+{k}] = @@f64[{O("p")}+{k}]' for k in range(D)]+
        [f'result=1 -> @{P}_tr[out] >=. {ab(k)}*.0.25' for k in range(D)]+
        ['result=1 -> '+' \\/ '.join(f'@{P}_tr[out] = {ab(k)}*.0.25' for k in range(D)),
         f'result=1 -> @{P}_dist2p[out] <. 0.0',f'result=1 /\\ not ({ngl}) -> @{P}_flags[out] = {FK[0]}',f'result=1 /\\ {ngl} -> @{P}_flags[out] = bor {FK[D]} {C}'])
    # a step along an edge
    A='('+' +. '.join(f'mulr @@f64[jac+{D*k}+de] @@f64[jac+{D*k}+de]' for k in range(D))+' -. rhes)'
    Y='('+' +. '.join(f'mulr @@f64[jac+{D*k}+de] @@f64[resid+{k}]' for k in range(D))+')'
    new=f'@f64[{R("out")}+de]'; old=f'@@f64[{R("p")}+de]'; tr=f'@@{P}_tr[p]'
    nf=lambda n:'(if RA.abs (%s -. %s) <. tol then bor %s %d else %s)'%(new,old,n,C,n)
    S['newton_edge']=dict(prelude=EDGE+PW,wrap=['value in range of the assigned type','no overflow'],requires=LAY+[f'0<=de<{D}']+[f'0<={d}<{D} /\\ {d}<>de' for d in dns]+(['dn1<>dn2'] if D==3 else [])+[f'-.1.0 <=. {old} <=. 1.0',f'{tr} >=. 0.0',f'0<=flags<={2*C-1}'],
        w={'f64':f'{R("out")}<=a<{R("out")}+{D}',f'{P}_dist2p':'a=out',f'{P}_flags':'a=out'},
        cut=['-. 1.0 <=. nr <=. 1.0','nr -. oldr = dr','elo oldr tr <=. dr','dr <=. ehi oldr tr','v = qmm vA y dr','(vA >. 0.0 /\\ dr = y /. vA) \\/ ((vA <=. 0.0 \\/ RA.abs (y /. vA) >=. tr \\/ RA.abs (oldr +. y /. vA) >=. 1.0) /\\ v <=. qmm vA y (elo oldr tr) /\\ v <=. qmm vA y (ehi oldr tr))',
          'new_flags=0 /\\ (tr >. 0.0 -> -.1.0 <. nr <. 1.0) \\/ new_flags = bor flags (P.power 2 (2*de)) /\\ nr = -. 1.0 \\/ new_flags = bor flags (2*P.power 2 (2*de)) /\\ nr = 1.0'],
        ghost={'entry':['pw de']+[f'assert {{ mod ({D*k}+de) 4294967296 = {D*k}+de }}' for k in range(1,D)],'exit':[f'assert {{ vA = {A} }}'.replace('@@','h0_'),f'assert {{ y = {Y} }}'.replace('@@','h0_'),f'assert {{ h_f64[{R("out")}+de] -. oldr = dr }}',f'edge vA y oldr tr dr v']+[z.replace('@@','h0_') for z in[f'assert {{ v = qm {A} {Y} dr }}',f'assert {{ v = qm {A} {Y} (h_f64[{R("out")}+de] -. {old}) }}',f'assert {{ eok {A} {Y} oldr tr dr }}',f'assert {{ eok {A} {Y} oldr tr (h_f64[{R("out")}+de] -. {old}) }}']]},
        ensures=[f'-.1.0 <=. {new} <=. 1.0',f'elo {old} {tr} <=. {new} -. {old} <=. ehi {old} {tr}']+[f'@f64[{R("out")}+{d}]=@@f64[{R("p")}+{d}]' for d in dns]+
         [f'forall t. elo {old} {tr} <=. t <=. ehi {old} {tr} -> qm {A} {Y} ({new} -. {old}) <=. qm {A} {Y} t',f'@{P}_dist2p[out] = -. qm {A} {Y} ({new} -. {old})',
          '\\/ '.join(f'({c} /\\ @{P}_flags[out] = bor (bor flags {nf(n)}) (mod (@@{P}_flags[p]*{SH}) 4294967296))' for c,n in[(f'({tr} >. 0.0 -> -.1.0 <. {new} <. 1.0)','0'),(f'{new} = -. 1.0','(bor flags (P.power 2 (2*de)))'),(f'{new} = 1.0','(bor flags (2*P.power 2 (2*de)))')])])
    return dict(file=f'src/findpts_el_{D}.c',name=f'findpts_el_{D}.c[search]',specs=S,real='op',bits=True,prelude=PRE)
def units(): return [unit(2),unit(3)]
