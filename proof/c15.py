"""C15: the Fortran entry points: each checks its handle and codes, and makes exactly one call of the matching C operation with the
arguments its own describe. The calls are logged in ghost state: @lg[0] counts them, @lg[1] says which, @lg[2..] are the arguments."""
UM='4294967295'
def LOG(code,params,types,take,ret='void',extra=(),w=None,req=(),keepargs=None,ens=(),why='the C operation: its own contracts; here: the call and its arguments are logged'):
    ps=keepargs or params
    return dict(params=params,types=types,take=take,ret=ret,w={'lg':'true',**(w or {})},requires=list(req),why=why,
      ensures=['@lg[0]=@@lg[0]+1',f'@lg[1]={code}']+[f'@lg[{i+2}]={p}' for i,p in enumerate(ps)]+list(extra)+list(ens))
def called(code,args): return ['@lg[0]=@@lg[0]+1',f'@lg[1]={code}']+[f'@lg[{i+2}]={a}' for i,a in enumerate(args)]
FAIL={'gslib_fail':dict(params=['status'],types=['int'],ret='void',take=[0],why='fail: prints and ends the program (declared noreturn)',ensures=['false'])}
VP='void *'; U='unsigned int'; GP='struct gs_data *'; BP='struct array *'; IP='int *'
def gsext():
    X=dict(FAIL)
    X['gslib_gs']=LOG(1,['u','dom','op','tr','gsh','buf'],[VP,'gs_dom','gs_op',U,GP,BP],[0,1,2,3,4,5])
    X['gslib_igs']=LOG(2,['u','dom','op','tr','gsh','buf','hd'],[VP,'gs_dom','gs_op',U,GP,BP,IP],[0,1,2,3,4,5,6])
    X['gslib_gs_vec']=LOG(3,['u','vn','dom','op','tr','gsh','buf'],[VP,U,'gs_dom','gs_op',U,GP,BP],list(range(7)))
    X['gslib_igs_vec']=LOG(4,['u','vn','dom','op','tr','gsh','buf','hd'],[VP,U,'gs_dom','gs_op',U,GP,BP,IP],list(range(8)))
    many=['forall q. 0<=q<vn -> @lm[q]=@ptr[u+q]']
    X['gslib_gs_many']=LOG(5,['u','vn','dom','op','tr','gsh','buf'],['void *const *',U,'gs_dom','gs_op',U,GP,BP],list(range(7)),keepargs=['vn','dom','op','tr','gsh','buf'],ens=many,w={'lm':'true'})
    X['gslib_igs_many']=LOG(6,['u','vn','dom','op','tr','gsh','buf','hd'],['void *const *',U,'gs_dom','gs_op',U,GP,BP,IP],list(range(8)),keepargs=['vn','dom','op','tr','gsh','buf','hd'],ens=many,w={'lm':'true'})
    X['gslib_gs_wait']=LOG(7,['hd'],['int'],[0])
    X['gslib_gs_free']=LOG(8,['gsh'],[GP],[0])
    X['gslib_gs_unique']=LOG(9,['id','n','c'],['long *',U,'struct comm *'],[0,1,2])
    X['comm_init_check_']=dict(params=['c','ce','np'],types=['struct comm *','int',U],take=[0,1,2],ret='void',w={'lc':'true'},ensures=['@lc[0]=@@lc[0]+1','@lc[1]=c','@lc[2]=ce','@lc[3]=np'],why='makes the communicator; logged')
    X['gs_setup_aux']=LOG(10,['gsh','id','n','unique','method','verbose'],[GP,'const long *',U,'int','gs_method','int'],list(range(6)))
    X['smalloc']=dict(params=['size'],types=['unsigned long'],take=[0],ret='void *',ensures=['result=mlc size','size>0 -> result<>0 /\\ recp_gs_data result<>0 ','mod result 8=0'],why='contract proved for C14')
    X['srealloc']=dict(params=['q','size'],types=['void *','unsigned long'],take=[0,1],ret='void *',ghostparams='(ghost kn: int)',requires=['0<=8*kn<=size'],ensures=['mod result 8=0','result=rlc q size','size>0 -> result<>0','forall t. 0<=t<kn -> @ptr[div result 8+t]=@@ptr[div q 8+t]'],
       w={'ptr':'rlc q size<=8*a<rlc q size+size'},why='contract proved for C14: the first kn elements, which the old block holds, are kept')
    X['array_reserve_']=dict(params=['va','min','size'],types=['struct array *','unsigned long','unsigned long'],take=[0,1,2],ret='void *',w={'array_ptr':'a=va','array_max':'a=va','ptr':'not (@glob_fgs_info[0]<=a<@glob_fgs_info[0]+@glob_fgs_n[0])'},ensures=['result=@array_ptr[va]','mod result 8=0','div result 8+min<=@glob_fgs_info[0] \\/ @glob_fgs_info[0]+@glob_fgs_n[0]<=div result 8'],why='contract proved for C14: room for min elements')
    X['free']=dict(params=['q'],types=['void *'],take=[0],ret='void',ensures=[],why='contract proved for C14')
    return X
PRE="""
  function dszb (d: int) : int = if d=0 then 8 else if d=1 then 4 else if d=2 then 4 else 8
  function mlc (bytes: int) : int   (* the address malloc answers with *)
  function rlc (q bytes: int) : int
"""
H='@i32[handle]'; DOM='@i32[dom]'; OP='@i32[op]'; TR='(if @i32[transpose]<>0 then 1 else 0)'
INFO=f'@ptr[@glob_fgs_info[0]+{H}]'
CD=f'(if {DOM}=1 then 0 else if {DOM}=2 then 2 else 4)'
OKH=[f'0<={H}<@glob_fgs_n[0]',f'{INFO}<>0']; OKP=[f'1<={DOM}<=3',f'1<={OP}<=4']+OKH
def gsu():
    S={}
    hd=['0<=handle<@glob_fgs_n[0]','@ptr[@glob_fgs_info[0]+handle]<>0']
    S['fgs_check_handle']=dict(ensures=hd)
    S['fgs_check_parms']=dict(ensures=['1<=dom<=3','1<=op<=4']+hd)
    S['gslib_gs_hf2c']=dict(requires=['0<=gsh<@glob_fgs_n[0]'],ensures=['result=@ptr[@glob_fgs_info[0]+gsh]'])
    W={'lg':'true'}; WM={'lg':'true','lm':'true'}
    op=[f'{CD}',f'{OP}-1',TR,INFO,'0']
    S['fgslib_gs_op_']=dict(w=W,ensures=OKP+called(1,['u']+op))
    S['fgslib_igs_op_']=dict(w=W,ensures=OKP+called(2,['u']+op+['wait']))
    S['fgslib_gs_op_vec_']=dict(requires=['0<=@i32[n]'],w=W,ensures=OKP+called(3,['u','@i32[n]']+op))
    S['fgslib_igs_op_vec_']=dict(requires=['0<=@i32[n]'],w=W,ensures=OKP+called(4,['u','@i32[n]']+op+['wait']))
    six=['0<@i32[n] -> @lm[0]=u1','1<@i32[n] -> @lm[1]=u2','2<@i32[n] -> @lm[2]=u3','3<@i32[n] -> @lm[3]=u4','4<@i32[n] -> @lm[4]=u5','5<@i32[n] -> @lm[5]=u6']
    U6='not (@glob_fgs_info[0]-6<$<=@glob_fgs_info[0]+@glob_fgs_n[0])'
    S['fgslib_gs_op_many_']=dict(local={'uu':U6},requires=['0<=@i32[n]<=6'],w=dict(WM,ptr='not (@glob_fgs_info[0]<=a<@glob_fgs_info[0]+@glob_fgs_n[0])'),ensures=OKP+called(5,['@i32[n]']+op)+six)
    S['fgslib_igs_op_many_']=dict(local={'uu':U6},requires=['0<=@i32[n]<=6'],w=dict(WM,ptr='not (@glob_fgs_info[0]<=a<@glob_fgs_info[0]+@glob_fgs_n[0])'),ensures=OKP+called(6,['@i32[n]']+op+['wait'])+six)
    S['fgslib_gs_op_wait_']=dict(w=W,ensures=called(7,[H]))
    S['fgslib_gs_free_']=dict(w=dict(W,ptr=f'a=@glob_fgs_info[0]+{H}'),ensures=[f'0<={H}<@glob_fgs_n[0]','@@ptr[@@glob_fgs_info[0]+@@i32[handle]]<>0']+called(8,[INFO.replace('@','@@')])+[f'{INFO}=0'])
    n0='@@glob_fgs_n[0]'; G='@ptr[@glob_fgs_info[0]+'+n0+']'
    FA='@array_ptr[fgs_fields_array]'
    OFF=f'(@i32[stride]*dszb {CD})'
    S['fgslib_gs_op_fields_']=dict(loops={1:dict(inv=['0<=i<=@i32[n]','p=p00+(@i32[n]-i)','u=u_0+(@i32[n]-i)*offset','forall q. 0<=q<@i32[n]-i -> @ptr[p00+q]=u_0+q*offset','forall t. 0<=t<@glob_fgs_n[0] -> @ptr[@glob_fgs_info[0]+t]=@@ptr[@glob_fgs_info[0]+t]'],var='i')},
       ghost={('before',1):['let ghost p00 = p',f'assert {{ offset={OFF} }}']},
requires=['0<=@i32[stride]'],w=dict(WM,array_ptr='true',array_max='true',ptr='not (@glob_fgs_info[0]<=a<@glob_fgs_info[0]+@glob_fgs_n[0])'),
       ensures=OKP+['@i32[n]<0 -> @lg[0]=@@lg[0]']+['@i32[n]>=0 -> '+e for e in called(5,['@i32[n]']+op)]+['@i32[n]>=0 -> (forall q. 0<=q<@i32[n] -> @lm[q]=u+q*(@i32[stride]*dszb '+CD+'))'])
    ST=lambda c,meth,**k: dict(**k,requires=['0<=@glob_fgs_n[0]<=@glob_fgs_max[0]','@glob_fgs_max[0]<=1400000000','0<=@i32[n]','0<=@i32[np]'],
      w=dict(W,lc='true',i32='a=handle'+(' \\/ a=dm' if k else ''),glob_fgs_n='a=0',glob_fgs_max='a=0',glob_fgs_info='a=0',ptr='true'),callghost={'srealloc':'(@glob_fgs_n[0])'},
      ensures=['@i32[handle]='+n0,f'@glob_fgs_n[0]={n0}+1','@glob_fgs_n[0]<=@glob_fgs_max[0]',f'forall q. 0<=q<{n0} -> @ptr[@glob_fgs_info[0]+q]=@@ptr[@@glob_fgs_info[0]+q]',f'{G}<>0']
        +[e.replace('@i32','@@i32') for e in called(10,[G,'id','@i32[n]','0',meth,'1'])]+['@lc[0]=@@lc[0]+1',f'@lc[1]=sub_gs_data_comm {G}',f'@lc[2]=@@i32[{c}]','@lc[3]=@@i32[np]'])
    S['fgslib_gs_setup_pick_']=ST('comm','@i32[method]')
    S['fgslib_gs_setup_pick_']['requires'].append('0<=@i32[method]')
    S['fgslib_gs_setup_']=ST('comm','0',ghostparams='(ghost dm: int)',local={'method':'$=dm'})
    S['fgslib_gs_setup_']['requires'].append('dm<>handle /\\ dm<>n /\\ dm<>np /\\ dm<>comm')
    return dict(file='src/gs.c',name='gs.c[fortran]',specs=S,prelude=PRE,extern=gsext(),heapty={'lg':'int','lm':'int','lc':'int'})
def gsq():
    S={}; W={'lg':'true'}; X=gsext(); X['smalloc']=dict(X['smalloc'],ensures=['result=mlc size','size>0 -> result<>0'])
    S['fgslib_gs_unique_']=dict(requires=['0<=@i32[n]','0<=@i32[np]'],w=dict(W,lc='true'),ensures=called(9,['id','@i32[n]'])+['@lc[0]=@@lc[0]+1','@lc[1]=@lg[4]','@lc[2]=@i32[c]','@lc[3]=@i32[np]'])
    return dict(file='src/gs.c',name='gs.c[unique]',specs=S,prelude=PRE,extern=X,heapty={'lg':'int','lm':'int','lc':'int'})
def units(): return [gsu(),gsq()]
def fcext():
    g=gsext(); X={k:g[k] for k in('gslib_fail','comm_init_check_','srealloc','free')}
    X['srealloc']=dict(X['srealloc'])
    X['smalloc']=dict(params=['size'],types=['unsigned long'],take=[0],ret='void *',ensures=['result=mlc size','size>0 -> result<>0 /\\ recp_crystal result<>0 ','mod result 8=0'],why='contract proved for C14')
    X['array_init_']=dict(params=['va','max','size'],types=['struct array *','unsigned long','unsigned long'],take=[0,1,2],ret='void',w={'la':'true','ld':'true'},why='array_init_: contract proved for C14; here: logged',
      ensures=['@la[0]=@@la[0]+1','forall q. q<>va -> @ld[q]=@@ld[q]','@ld[va]=1'])
    def SRT(code): return dict(params=['buf','start','va','n','stride'],types=[BP,'int','unsigned int *' if code==1 else 'unsigned long long *',U,U],take=[0,1,2,3,4],ret='void',w={h:'true' for h in('sc','sk','si','sa','sn','ss','sb')},
      requires=['@pc[0]=0'],ensures=['@sc[0]=@@sc[0]+1']+['forall q. q<>@@sc[0] -> @%s[q]=@@%s[q]'%(h,h) for h in('sk','si','sa','sn','ss','sb')]+['@sk[@@sc[0]]=%d'%code,'@si[@@sc[0]]=start','@sa[@@sc[0]]=va','@sn[@@sc[0]]=n','@ss[@@sc[0]]=stride','@sb[@@sc[0]]=buf'],
      why='the index sort: its own contract is proved for C08/C09; here: the call is appended to the log')
    X['gslib_sortp_ui']=SRT(1); X['gslib_sortp_ull']=SRT(2)
    X['gslib_sarray_permute_buf_']=dict(params=['align','size','va','n','buf'],types=['unsigned long','unsigned long',VP,'unsigned long',BP],take=[0,1,2,3,4],ret='void',w={h:'true' for h in('pc','pa','pz','pn','pb')},
      ensures=['@pc[0]=@@pc[0]+1']+['forall q. q<>@@pc[0] -> @%s[q]=@@%s[q]'%(h,h) for h in('pa','pz','pn','pb')]+['@pa[@@pc[0]]=va','@pz[@@pc[0]]=size','@pn[@@pc[0]]=n','@pb[@@pc[0]]=buf'],why='the permutation: its own contract is proved for C10; here: logged')
    X['gslib_sarray_transfer_many']=LOG(20,['nar','fixed','ext','set_src','p_off','proc','proc_stride','cr'],['struct array *const *','const unsigned *',U,'int','int','int',U,'const unsigned *',U,'struct crystal *'],list(range(10)),ret='unsigned int',
      keepargs=['nar','fixed','ext','set_src','p_off','proc','proc_stride','cr'],w={'tp':'true','tn':'true','tm':'true','tz':'true','array_n':'true'},
      ens=['@lg[10]=result','result<=2147483647','forall q. 0<=q<nar -> @tp[q]=@@array_ptr[@ptr[va+q]] /\\ @tn[q]=@@array_n[@ptr[va+q]] /\\ @tm[q]=@array_max[@ptr[va+q]] /\\ @tz[q]=@u32[size+q]'],why='the transfer: C12/C13; here: logged')
    X['gslib_sarray_transfer_many']['params']=['va','size']+X['gslib_sarray_transfer_many']['params']
    X['gslib_crystal_free']=LOG(21,['cr'],['struct crystal *'],[0])
    return X
def fcu():
    S={}; W={'lg':'true'}; n0='@@glob_handle_n[0]'; G='@ptr[@glob_handle_array[0]+'+n0+']'
    H='@i32[handle]'; INFO=f'@ptr[@glob_handle_array[0]+{H}]'; OKH=[f'0<={H}<@glob_handle_n[0]',f'{INFO}<>0']
    S['fgslib_crystal_setup_']=dict(requires=['0<=@glob_handle_n[0]<=@glob_handle_max[0]','@glob_handle_max[0]<=1400000000','0<=@i32[np]'],
      w=dict(lc='true',la='true',ld='true',i32='a=handle',glob_handle_n='a=0',glob_handle_max='a=0',glob_handle_array='a=0',ptr='true'),callghost={'srealloc':'(@glob_handle_n[0])'},
      ensures=['@i32[handle]='+n0,f'@glob_handle_n[0]={n0}+1','@glob_handle_n[0]<=@glob_handle_max[0]',f'forall q. 0<=q<{n0} -> @ptr[@glob_handle_array[0]+q]=@@ptr[@@glob_handle_array[0]+q]',f'{G}<>0',
        '@lc[0]=@@lc[0]+1',f'@lc[1]=sub_crystal_comm {G}',f'@lc[2]=@@i32[comm]','@lc[3]=@@i32[np]','@la[0]=@@la[0]+2',f'@ld[sub_crystal_data {G}]=1',f'@ld[sub_crystal_work {G}]=1'])
    INF0='@@ptr[@@glob_handle_array[0]+@@i32[handle]]'
    S['fgslib_crystal_free_']=dict(w=dict(W,ptr=f'a=@glob_handle_array[0]+{H}'),ensures=[f'0<={H}<@glob_handle_n[0]',INF0+'<>0']+called(21,[INF0])+[f'{INFO}=0'])
    BUF=f'sub_crystal_data {INFO}'
    WS={h:'true' for h in('sc','sk','si','sa','sn','ss','sb','pc','pa','pz','pn','pb')}
    AI=f'(forall q. 0<=q<%s -> @sk[q]=1 /\\ @si[q]=(if q=0 then 0 else 1) /\\ @sa[q]=vA+@i32[keys+@i32[nkey]-1-q]-1 /\\ @sn[q]=@i32[n] /\\ @ss[q]=4*@i32[m] /\\ @sb[q]={BUF})'
    S['fgslib_crystal_ituple_sort_']=dict(ghost={'entry':['assert { h_i32[nkey]>0 -> 1<=h_i32[keys+(h_i32[nkey]-1)] }'],('enter',1):['assert { 1<=h_i32[keys+nk] }']},requires=['0<=@i32[m]<=100000000','0<=@i32[n]','@sc[0]=0','@pc[0]=0','-2147483647<=@i32[nkey]','forall a. keys<=a<keys+@i32[nkey] -> 1<=@i32[a]<=@i32[m]'],w=WS,
      loops={1:dict(inv=['0<=nk<=@i32[nkey]-1','@i32[nkey]>=1','@sc[0]=@i32[nkey]-nk','buf='+BUF]+OKH+[AI%'@sc[0]'],var='nk')},
      ensures=OKH+['@i32[nkey]<=0 -> @sc[0]=0 /\\ @pc[0]=0','@i32[nkey]>0 -> @sc[0]=@i32[nkey] /\\ @pc[0]=1 /\\ @pa[0]=4*vA /\\ @pz[0]=4*@i32[m] /\\ @pn[0]=@i32[n] /\\ @pb[0]='+BUF,
        f'@i32[nkey]>0 -> '+AI%'@i32[nkey]'])

    LIM=['0<=@i32[n]']
    KEYS='(@i32[keys+@i32[nkey]-1-q]-1)'; MI='@i32[mi]'; ML='@i32[ml]'; MD='@i32[md]'
    NI=f'(if {MI}<>0 then 1 else 0)'; NL=f'(if {ML}<>0 then 1 else 0)'; ND=f'(if {MD}<>0 then 1 else 0)'
    srt=lambda q0:f'(forall q. 0<=q<{q0} -> 0<={KEYS}<{MI}+{ML} /\\ @si[q]=(if q=0 then 0 else 1) /\\ @sn[q]=@i32[n] /\\ @sb[q]={BUF} /\\ ({KEYS}<{MI} -> @sk[q]=1 /\\ @sa[q]=vAi+{KEYS} /\\ @ss[q]=4*{MI}) /\\ ({KEYS}>={MI} -> @sk[q]=2 /\\ @sa[q]=vAl+({KEYS}-{MI}) /\\ @ss[q]=8*{ML}))'
    prm=lambda i,a,z:f'@pa[{i}]={a} /\\ @pz[{i}]={z} /\\ @pn[{i}]=@i32[n] /\\ @pb[{i}]={BUF}'
    S['fgslib_crystal_tuple_sort_']=dict(ghost={('enter',1):['assert { -2147483647<=h_i32[keys+nk] }']},requires=[f'0<={MI}<=100000000',f'0<={ML}<=100000000',f'0<={MD}<=100000000','0<=@i32[n]','@sc[0]=0','@pc[0]=0','forall a. keys<=a<keys+@i32[nkey] -> -2147483647<=@i32[a]'],w=WS,
      loops={1:dict(inv=['0<=nk<=@i32[nkey]','@i32[nkey]>=1','@sc[0]=@i32[nkey]-nk','init=(if @sc[0]=0 then 0 else 1)','buf='+BUF]+OKH+[srt('@sc[0]')],var='nk')},
      ensures=OKH+['@i32[nkey]<=0 -> @sc[0]=0 /\\ @pc[0]=0','@i32[nkey]>0 -> @sc[0]=@i32[nkey] /\\ '+srt('@i32[nkey]'),
        f'@i32[nkey]>0 -> @pc[0]={NI}+{NL}+{ND}',f'@i32[nkey]>0 /\\ {MI}<>0 -> '+prm('0','4*vAi',f'4*{MI}'),f'@i32[nkey]>0 /\\ {ML}<>0 -> '+prm(NI,'8*vAl',f'8*{ML}'),f'@i32[nkey]>0 /\\ {MD}<>0 -> '+prm(f'({NI}+{NL})','8*vAd',f'8*{MD}')])
    NT=f'not (@glob_handle_array[0]<=$<@glob_handle_array[0]+@glob_handle_n[0])'
    lw=dict(lg='true',tp='true',tn='true',tm='true',tz='true',array_n='true',array_ptr='true',array_max='true',u32='true',ptr=NT.replace('$','a'),i32='a=n')
    TR=lambda k,mm,mx,A: OKH+['@lg[0]=@@lg[0]+1','@lg[1]=20',f'@lg[2]={k}','@lg[3]=1','@lg[4]=0','@lg[5]=1','@lg[6]=4*(@i32[proc_key]-1)',f'@lg[7]={A}+(@i32[proc_key]-1)',f'@lg[8]=4*{mm}',f'@lg[9]={INFO}','@i32[n]=@lg[10]']+[f'@tn[{j}]=@@i32[n] /\\ @tm[{j}]=@i32[{mx}]' for j in range(k)]
    S['fgslib_crystal_ituple_transfer_']=dict(requires=['0<=@i32[m]<=100000000','1<=@i32[proc_key]<=100000000','0<=@i32[n]','0<=@i32[nmax]','n<>m /\\ n<>nmax /\\ n<>proc_key /\\ n<>handle'],w=lw,
      local={'ar':'true','ar_ptr':NT,'size':'true'},ensures=TR(1,'@i32[m]','nmax','vA')+['@tp[0]=4*vA','@tz[0]=4*@i32[m]'])
    S['fgslib_crystal_tuple_transfer_']=dict(requires=[f'0<={MI}<=100000000',f'0<={ML}<=100000000',f'0<={MD}<=100000000','1<=@i32[proc_key]<=100000000','0<=@i32[n]','0<=@i32[max]','n<>mi /\\ n<>ml /\\ n<>md /\\ n<>max /\\ n<>proc_key /\\ n<>handle'],w=lw,
      local={'ar_i':'true','ar_l':'$<>ar_i','ar_d':'$<>ar_i /\\ $<>ar_l','ar':NT.replace('@glob_handle_array[0]<=','@glob_handle_array[0]-3<='),'size':'true'},
      ensures=TR(3,MI,'max','vAi')+['@tp[0]=4*vAi','@tz[0]=4*'+MI,'@tp[1]=8*vAl','@tz[1]=8*'+ML,'@tp[2]=8*vAd','@tz[2]=8*'+MD])
    return dict(file='src/fcrystal.c',name='fcrystal.c',specs=S,prelude=PRE,extern=fcext(),heapty={h:'int' for h in('lg','lc','la','ld','sc','sk','si','sa','sn','ss','sb','pc','pa','pz','pn','pb','tp','tn','tm','tz')})

DP='double *'; CDP='const double *'; UP='unsigned int *'
def fpext():
    g=gsext(); X={k:g[k] for k in('gslib_fail','comm_init_check_')}
    X['array_init_']=fcext()['array_init_']
    RT=[f'let r=recp_findpts_data_{D} result in recp_findpts_data_{D} (size*r)=r /\\ (size>0 -> size*r<>0)' for D in(2,3)]
    X['smalloc']=dict(params=['size'],types=['unsigned long'],take=[0],ret='void *',ensures=['result=mlc size','size>0 -> result<>0','mod result 8=0']+RT,why='contract proved for C14')
    X['srealloc']=dict(params=['q','size'],types=['void *','unsigned long'],take=[0,1],ret='void *',ghostparams='(ghost kn: int)',requires=['0<=16*kn<=size'],w={'handle_data':'true','handle_ndim':'true'},why='contract proved for C14: the first kn records, which the old block holds, are kept',
      ensures=['mod result 8=0','result=rlc q size','size>0 -> result<>0','forall t. 0<=t<kn -> @handle_data[recp_handle result+t]=@@handle_data[@glob_handle_array[0]+t] /\\ @handle_ndim[recp_handle result+t]=@@handle_ndim[@glob_handle_array[0]+t]'])
    for D in(2,3):
        FD=f'struct findpts_data_{D} *'; b=40+10*D; xs=[f'forall q. 0<=q<{D} -> @xs[q]=@ptr[xb+q] /\\ @xt[q]=@u32[xst+q]']; W={'xs':'true','xt':'true'}
        srch=['code','cst','proc','pst','el','est','r','rst','dist','dst','xb','xst']; st=[UP,U,UP,U,UP,U,DP,U,DP,U,'const double *const *','const unsigned *']
        kk=[q for q in srch if q not in('xb','xst')]
        X[f'gslib_findpts_{D}']=LOG(b,srch+['npt','fd'],st+[U,FD],list(range(14)),keepargs=kk+['npt','fd'],w=W,ens=xs)
        X[f'gslib_findptsms_{D}']=LOG(b+1,srch+['sb','sst','sm','npt','fd'],st+[UP,U,UP,U,FD],list(range(17)),keepargs=kk+['sb','sst','sm','npt','fd'],w=W,ens=xs)
        ev=['out','ost','code','cst','proc','pst','el','est','r','rst','npt','in_','fd']; et=[DP,U,UP,U,UP,U,UP,U,CDP,U,U,CDP,FD]
        X[f'gslib_findpts_eval_{D}']=LOG(b+2,ev,et,list(range(13))); X[f'gslib_findptsms_eval_{D}']=LOG(b+3,ev,et,list(range(13)))
        le=['out','ost','el','est','r','rst','npt','in_','fd']; lt=[DP,U,UP,U,CDP,U,U,CDP,f'struct findpts_local_data_{D} *']
        X[f'gslib_findpts_local_eval_{D}']=LOG(b+4,le,lt,list(range(9))); X[f'gslib_findptsms_local_eval_{D}']=LOG(b+5,le,lt,list(range(9)))
        X[f'setupms_aux_{D}']=LOG(b+8,['fd','xb','vn','nel','vm','bt','lh','gh','nm','nt','nsid','di','ims'],[FD,'const double *const *','const unsigned *',U,'const unsigned *','double',U,U,U,'double','const unsigned *',CDP,U],list(range(13)),keepargs=['fd','nel','lh','gh','nm','ims','nsid','di'],
          w={'xs':'true','xn':'true','xm':'true','lr':'true'},ens=[f'forall q. 0<=q<{D} -> @xs[q]=@ptr[xb+q] /\\ @xn[q]=@u32[vn+q] /\\ @xm[q]=@u32[vm+q]','@lr[0]=bt','@lr[1]=nt'])
        X[f'gslib_findpts_free_{D}']=LOG(b+6,['fd'],[FD],[0]); X[f'gslib_findptsms_free_{D}']=LOG(b+7,['fd'],[FD],[0])
    return X
def fpu():
    S={}; HD='(@glob_handle_array[0]+@i32[handle])'; HD='(@glob_handle_array[0]+@i32[handle])'; INFO=f'@handle_data[{HD}]'; ND=f'@handle_ndim[{HD}]'
    OKH=['0<=@i32[handle]<@glob_handle_n[0]',f'{INFO}<>0']; W={'lg':'true'}
    c=lambda code,args: ['@lg[0]=@@lg[0]+1',f'@lg[1]=(if {ND}=2 then {60+code} else {70+code})']+[f'@lg[{i+2}]={a}' for i,a in enumerate(args) if a]
    st=lambda v,k:f'{k}*@i32[{v}_stride]'
    srch=[x for v in('code','proc','el') for x in(v+'_base',st(v,4))]+['r_base',st('r',8),'dist2_base',st('dist2',8)]
    sreq=lambda vs:[f'0<=@i32[{v}_stride]<=500000000' for v in vs]+['0<=@i32[npt]']
    FD=f'(if {ND}=2 then recp_findpts_data_2 {INFO} else recp_findpts_data_3 {INFO})'; LD=f'(if {ND}=2 then sub_findpts_data_2_local (recp_findpts_data_2 {INFO}) else sub_findpts_data_3_local (recp_findpts_data_3 {INFO}))'; O='@'+INFO.replace('@','@@')[1:]
    NT='not (@glob_handle_array[0]-4<=$<=@glob_handle_array[0]+@glob_handle_n[0])'
    for ms in('','ms'):
        SS='$+3<=session_id_stride \\/ session_id_stride+1<=$' if ms else 'true'
        B={'xv_base':'true','xv_stride':SS,'xv_base__2':'true','xv_stride__2':SS}
        xs=['@xs[0]=x_base /\\ @xt[0]=8*@i32[x_stride]','@xs[1]=y_base /\\ @xt[1]=8*@i32[y_stride]',f'{ND}<>2 -> @xs[2]=z_base /\\ @xt[2]=8*@i32[z_stride]']
        ses=['session_id_base','4*@@u32[session_id_stride]','session_id_match'] if ms else []
        S[f'fgslib_findpts{ms}_']=dict(local=B,requires=sreq(('code','proc','el','r','dist2','x','y','z'))+(['@u32[session_id_stride]<=500000000'] if ms else []),w=dict(W,xs='true',xt='true',ptr='true',u32='true'),
          ensures=OKH+c(1 if ms else 0,srch+ses+['@i32[npt]',FD])+xs)
        ev=['out_base',st('out',8)]+[x for v in('code','proc','el') for x in(v+'_base',st(v,4))]+['r_base',st('r',8),'@i32[npt]','in_',FD]
        S[f'fgslib_findpts{ms}_eval_']=dict(requires=sreq(('out','code','proc','el','r')),w=W,ensures=OKH+c(3 if ms else 2,ev))
        ev=['out_base',st('out',8),'el_base',st('el',4),'r_base',st('r',8),'@i32[npt]','in_',LD]
        S[f'fgslib_findpts{ms}_eval_local_']=dict(requires=sreq(('out','el','r')),w=W,ensures=OKH+c(5 if ms else 4,ev))
        S[f'fgslib_findpts{ms}_free_']=dict(w=dict(W,handle_data=f'a={HD}'),ensures=OKH[:1]+['@'+INFO.replace('@','@@')[1:]+'<>0']+c(7 if ms else 6,[FD.replace('@handle_data','@@handle_data')])+[INFO+'=0'])
    n0='@@glob_handle_n[0]'; GH='(@glob_handle_array[0]+'+n0+')'; I2=f'@handle_data[{GH}]'
    for ms in('','ms'):
        loc={'elx':'true','elx__2':'true'}
        for k in('n','m'):
            for q in('','__2'): loc[k+q]='true' if k=='n' else f'($>=n{q}+3 \\/ $+3<=n{q})'
        if not ms:
            for k in('n','m','n__2','m__2'): loc[k]=loc[k].replace('true','$=$')+' /\\ not ($<=div (mlc 4) 4<$+3)'
        i0=lambda v:f'@@i32[{v}]'
        FDX=f'(if {i0("ndim")}=2 then recp_findpts_data_2 {I2} else recp_findpts_data_3 {I2})'
        sub=lambda f:f'(if {i0("ndim")}=2 then sub_crystal_{f} (sub_findpts_data_2_cr (recp_findpts_data_2 {I2})) else sub_crystal_{f} (sub_findpts_data_3_cr (recp_findpts_data_3 {I2})))'
        A=[FDX,i0('nel'),i0('loc_hash_size'),i0('gbl_hash_size'),i0('npt_max'),'1' if ms else '0']
        S[f'fgslib_findpts{ms}_setup_']=dict(local=loc,callghost={'srealloc':'(@glob_handle_n[0])'},
          requires=['0<=@glob_handle_n[0]<=@glob_handle_max[0]','@glob_handle_max[0]<=1000000000']+([] if ms else ['div (mlc 8) 8<>bbox_tol /\\ div (mlc 8) 8<>newt_tol'])+[f'0<=@i32[{v}]' for v in('np','ndim','nr','ns','nel','mr','ms','loc_hash_size','gbl_hash_size','npt_max')]+['@i32[ndim]=3 -> 0<=@i32[nt] /\\ 0<=@i32[mt]'],
          w=dict(W,lc='true',la='true',ld='true',lr='true',xs='true',xn='true',xm='true',i32='a=handle',glob_handle_n='a=0',glob_handle_max='a=0',glob_handle_array='a=0',handle_data='true',handle_ndim='true',ptr='true',u32='true',f64='true'),
          ensures=['2<=@@i32[ndim]<=3','@i32[handle]='+n0,f'@glob_handle_n[0]={n0}+1','@glob_handle_n[0]<=@glob_handle_max[0]',f'{I2}<>0',f'@handle_ndim[{GH}]=@@i32[ndim]',
            f'forall q. 0<=q<{n0} -> @handle_data[@glob_handle_array[0]+q]=@@handle_data[@@glob_handle_array[0]+q] /\\ @handle_ndim[@glob_handle_array[0]+q]=@@handle_ndim[@@glob_handle_array[0]+q]',
            '@lc[0]=@@lc[0]+1','@lc[1]='+sub('comm'),'@lc[2]=@@i32[comm]','@lc[3]=@@i32[np]','@la[0]=@@la[0]+2',f'@ld[{sub("data")}]=1',f'@ld[{sub("work")}]=1']
          +['@lg[0]=@@lg[0]+1','@lg[1]=(if @@i32[ndim]=2 then 68 else 78)']+[f'@lg[{j+2}]={x}' for j,x in enumerate(A)]+['@lr[0]=@@f64[bbox_tol]','@lr[1]=@@f64[newt_tol]']
          +['@xs[0]=xm /\\ @xs[1]=ym','@@i32[ndim]=3 -> @xs[2]=zm','@xn[0]=@@i32[nr] /\\ @xn[1]=@@i32[ns]','@@i32[ndim]=3 -> @xn[2]=@@i32[nt]','@xm[0]=@@i32[mr] /\\ @xm[1]=@@i32[ms]','@@i32[ndim]=3 -> @xm[2]=@@i32[mt]']
          +(['@lg[8]=nsid','@lg[9]=distfint'] if ms else []))
    return dict(file='src/findpts.c',name='findpts.c[fortran]',specs=S,prelude=PRE,extern=fpext(),heapty={h:'int' for h in('lg','lc','la','ld','xs','xt','xn','xm')}|{'lr':'real'})
def units(): return [gsu(),gsq(),fcu(),fpu()]
