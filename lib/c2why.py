"""c2why: mechanical translation of C functions (clang AST of /repo's current sources) to WhyML.

Memory model: one map per scalar element type and per struct field; a pointer to T is an integer counted in units of
T (void* and char*: bytes).  Two accesses of the same type touch the same object exactly when the pointers are equal;
objects accessed through different types or different fields are distinct (C's effective-type rules).
Integers: mathematical, with an obligation wherever a value leaves the range of its C type; unsigned + - * are evaluated
modulo 2^w by delaying the range obligation to the first use that is not + - * or a narrowing conversion.
Floating point: 'real' (rounding ignored) or 'abstract' (uninterpreted operations), chosen per unit.
What the translation drops is listed in DROPS."""
import json, os, re, subprocess
DROPS=['const, restrict, register and inline qualifiers','source positions, comments and the names of macros (the preprocessed code is translated)',
       'calls of printf and of fail() are kept as "does not return normally with status!=0"; their output is dropped',
       'alignment and representation of objects: memory is typed per scalar and per struct field']
class Unsupported(Exception): pass
class Attach(Exception): pass
KW=set('abstract absurd alias any as assert assume at axiom begin break by check clone coinductive constant continue diverges do done downto else end ensures epsilon exception exists export false float for forall fun function ghost goal if import in inductive invariant label lemma let match meta module mutable not old partial predicate private pure raise raises range reads rec ref requires result return returns scope so then theory to true try type use val variant while with writes'.split())
def san(n):
    if n in KW: return n+'_'
    if n in('a','result'): return 'v'+n
    if not re.match(r'[a-z_]',n[0]): n='v'+n
    return n
INTS={'char':(8,1,'i8'),'signed char':(8,1,'i8'),'unsigned char':(8,0,'u8'),'short':(16,1,'i16'),'unsigned short':(16,0,'u16'),'int':(32,1,'i32'),'unsigned int':(32,0,'u32'),
      'unsigned':(32,0,'u32'),'long':(64,1,'i64'),'unsigned long':(64,0,'u64'),'long long':(64,1,'q64'),'unsigned long long':(64,0,'w64'),'_Bool':(8,0,'u8'),'bool':(8,0,'u8')}
# ctypes: ('int',w,signed,h) ('fl',h,size) ('ptr',T) ('arr',T,n) ('rec',name) ('void',) ('fun',)
U32=('int',32,0,'u32'); I32=('int',32,1,'i32'); U64=('int',64,0,'u64')
class TU:
    def __init__(s,path,flags):
        r=subprocess.run(['clang','-fsyntax-only','-w','-Xclang','-ast-dump=json']+flags+[path],stdout=subprocess.PIPE,stderr=subprocess.PIPE)
        if r.returncode: raise Unsupported('clang: '+r.stderr.decode()[-500:])
        s.cmd=(path,flags); s._off=None
        s.ast=json.loads(r.stdout); s.fn={}; s.rec={}; s.recname={}; s.enum={}; s.glob={}; s.tdef={}
        for d in s.ast['inner']: s.top(d)
    def top(s,d):
        k=d['kind']
        if k=='FunctionDecl':
            if any(x.get('kind')=='CompoundStmt' for x in d.get('inner',[])): s.fn[d['name']]=d
        elif k=='RecordDecl':
            if d.get('completeDefinition'):
                nm=d.get('name'); f=[]
                for x in d.get('inner',[]):
                    if x['kind']=='RecordDecl': s.top(x)
                    if x['kind']=='FieldDecl': f.append((x.get('name'),x['type']))
                s.recname[d['id']]=nm; s.rec[nm or d['id']]=f
        elif k=='EnumDecl':
            v=-1
            for x in d.get('inner',[]):
                if x['kind']!='EnumConstantDecl': continue
                v+=1
                if x.get('inner'):
                    c=x['inner'][0]
                    while 'value' not in c and c.get('inner'): c=c['inner'][0]
                    if 'value' in c: v=int(c['value'])
                s.enum[x['name']]=v
        elif k=='TypedefDecl':
            s.tdef[d['name']]=d['type']
            t=d['inner'][0] if d.get('inner') else {}
            while t and t.get('kind') in ('ElaboratedType',): 
                o=t.get('ownedTagDecl'); 
                if o and o['kind']=='RecordDecl' and not o.get('name') and o['id'] in s.rec: s.rec[d['name']]=s.rec[o['id']]
                t=(t.get('inner') or [{}])[0]
            if t.get('kind')=='RecordType':
                o=t['decl']
                if not o.get('name') and o['id'] in s.rec: s.rec[d['name']]=s.rec[o['id']]
        elif k=='VarDecl': s.glob[d['name']]=d
        if k=='LinkageSpecDecl':
            for x in d.get('inner',[]): s.top(x)
    def offsets(s):
        """clang's JSON leaves out the operands of offsetof; they are taken, in order, from clang's printout of the same tree"""
        if s._off is None:
            path,flags=s.cmd; ids=[]
            def w(d):
                if d.get('kind')=='OffsetOfExpr': ids.append(d['id'])
                for x in d.get('inner',[]): w(x)
            w(s.ast)
            r=subprocess.run(['clang','-fsyntax-only','-w','-Xclang','-ast-print']+flags+[path],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True).stdout
            m=re.findall(r'__builtin_offsetof\((struct \w+|struct \(unnamed[^)]*\)|\w+), ([\w.]+)\)',r)
            if len(m)!=len(ids) or len(m)!=r.count('__builtin_offsetof'): raise Unsupported('offsetof operands')
            s._off=dict(zip(ids,m))
        return s._off
    def ctype(s,t):
        if isinstance(t,dict): t=t.get('desugaredQualType') or t['qualType']
        return s.parse(t)
    def parse(s,t):
        t=t.strip(); t=re.sub(r'\b(const|restrict|volatile|__restrict|__restrict__|enum)\b','',t); t=re.sub(r'\s+',' ',t).strip()
        m=re.search(r'\(\*+\s*\)',t)
        if m:
            stars=t[m.start():m.end()].count('*'); rest=t[m.end():].strip(); base=t[:m.start()]
            if rest.startswith('('): r=('fun',)
            else: r=s.parse(base+rest)
            for _ in range(stars): r=('ptr',r)
            return r
        m=re.match(r'^(.*?)((\[\d*\])+)$',t)
        if m:
            r=s.parse(m.group(1))
            for n in reversed(re.findall(r'\[(\d*)\]',m.group(2))): r=('arr',r,int(n or 0))
            return r
        if t.endswith('*'): return ('ptr',s.parse(t[:-1]))
        if t.endswith(')'): return ('fun',)
        if t=='void': return ('void',)
        if t in INTS: w,sg,h=INTS[t]; return ('int',w,sg,h)
        if t=='double': return ('fl','f64',8)
        if t=='float': return ('fl','f32',4)
        if t.startswith('struct '): return ('rec',t[7:])
        if t.startswith('(unnamed') or t.startswith('unnamed'): return ('rec',t)
        if t in s.rec: return ('rec',t)
        if t in s.tdef:
            u=s.tdef[t]; q=u.get('desugaredQualType') or u['qualType']
            if q!=t: return s.parse(q)
        if t in ('gs_dom','gs_op','gs_mode','gs_op_t','gs_method'): return U32
        raise Unsupported('type '+t)
    def fields(s,n): 
        if n not in s.rec: raise Unsupported('record '+n)
        return [(f,s.ctype(t)) for f,t in s.rec[n]]
    def flat(s,nm,T):
        """names and types of the scalar parts of a value"""
        if T[0]!='rec': return [(nm,T)]
        out=[]
        for f,t in s.fields(T[1]):
            if t[0]=='arr': raise Unsupported('record with array as a value')
            out+=s.flat(f'{nm}_{f}',t)
        return out
    def size(s,T):
        k=T[0]
        if k=='int': return T[1]//8
        if k=='fl': return T[2]
        if k=='ptr': return 8
        if k=='arr': return T[2]*s.size(T[1])
        if k=='void': return 1
        if k=='rec':
            o=0; al=1
            for f,t in s.fields(T[1]):
                a=s.align(t); al=max(al,a); o=(o+a-1)//a*a+s.size(t)
            return (o+al-1)//al*al
        raise Unsupported('size of %r'%(T,))
    def offsetof(s,T,f):
        o=0
        for g,t in s.fields(T[1]):
            a=s.align(t); o=(o+a-1)//a*a
            if g==f: return o
            o+=s.size(t)
        raise Unsupported('field')
    def align(s,T):
        if T[0]=='arr': return s.align(T[1])
        if T[0]=='rec': return max([s.align(t) for _,t in s.fields(T[1])]+[1])
        return s.size(T)
def inner(T):
    while T[0]=='arr': T=T[1]
    return T
def count(T):
    n=1
    while T[0]=='arr': n*=T[2]; T=T[1]
    return n
def hname(T):
    T=inner(T)
    if T[0]=='int': return T[3]
    if T[0]=='fl': return T[1]
    if T[0]=='ptr': return 'ptr' 
    raise Unsupported('heap of %r'%(T,))
def rng(T):
    w,sg=T[1],T[2]
    return (-(1<<(w-1)),(1<<(w-1))-1) if sg else (0,(1<<w)-1)
class Val:
    __slots__=('t','T','exact','simple')
    def __init__(s,t,T,exact=True,simple=False): s.t=t; s.T=T; s.exact=exact; s.simple=simple or bool(re.fullmatch(r"\w+|\(-?\d+\)",t))
class Fn:
    """translates one function; spec: dict with requires, ensures, loops {k: dict(inv, var)}, w, r, local, ghost, bounds"""
    def __init__(s,unit,name,spec):
        s.u=unit; s.tu=unit.tu; s.name=name; s.sp=spec; s.d=s.tu.fn.get(name)
        if s.d is None: raise Attach('no function '+name)
        s.n=0; s.loopn=0; s.heaps=set(); s.written=set(); s.callees=[]; s.used=set(); s.sitelines=[]; s.abs=unit.abstract
        s.stack=[]; s.inl=[]; s.usedloops=set(); s.nob=0; s.inlined=set(); s.calln={}
    # --- helpers
    def tmp(s): s.n+=1; return f't_{s.n}'
    def wt(s,T):
        if T[0]=='int': return T[3] if T[3] in s.abs else 'int'
        if T[0]=='fl': return T[1] if T[1] in s.abs else 'real'
        if T[0] in('ptr','arr'): return 'int'
        if T[0]=='rec': return '('+', '.join(s.wt(t) for _,t in s.flat('',T))+')'
        raise Unsupported('value of type %r'%(T,))
    def flat(s,nm,T): return s.tu.flat(nm,T)
    def isabs(s,T): return (T[0]=='int' and T[3] in s.abs) or (T[0]=='fl' and T[1] in s.abs)
    def uheap(s,h,T=None):
        if h not in s.heaps: s.heaps.add(h); 
        if T is not None: s.u.heapty[h]=s.wt(T)
        elif h not in s.u.heapty: s.u.heapty[h]=s.htype(h)
    def htype(s,h):
        if h in s.abs: return h
        if h in('f64','f32'): return 'real'
        for rn in s.tu.rec:
            for f,t in (s.tu.rec[rn] or []):
                if f and san(f'{rn}_{f}'.replace(' ','_'))==h:
                    try: return s.wt(s.tu.ctype(t))
                    except Unsupported: return 'int'
        return 'int'
    def let(s,b,t,ref=False,name=None):
        n=name or s.tmp(); b.append(('let',f'let {"ref " if ref else ""}{n} = {t} in')); return n
    def st(s,b,t): b.append(('st',t))
    def render(s,b,last='()',ind=2):
        out=[]; 
        for k,t in b: out.append(t if k=='let' else t+';')
        return '\n'.join(out+[last])
    def ob(s,b,f,label):
        s.nob+=1; s.st(b,f'assert {{ [@expl:{label}] {f} }}')
    def exact(s,b,v,label='no overflow'):
        if v.exact or v.T[0]!='int' or s.isabs(v.T): return v
        lo,hi=rng(v.T)
        t=v.t
        if not v.simple: t=s.let(b,v.t)
        if lo==0 and label in s.sp.get('wrap',()): return Val(s.let(b,f'any int ensures {{ result = E.mod {par(t)} {hi+1} /\\ (0 <= {par(t)} <= {hi} -> result = {par(t)}) }}'),v.T,True,True)
        s.ob(b,f'{lo} <= {t} <= {hi}',label)
        return Val(t,v.T,True,True)
    def nm(s,b,v):
        if re.fullmatch(r'\w+|\(-\d+\)',v.t): return v
        return Val(s.let(b,v.t),v.T,v.exact,True)
    def fix(s,b,v):
        if v.simple: return v
        return Val(s.let(b,v.t),v.T,v.exact,True)
    # --- memory
    def load(s,b,h,a,T):
        s.uheap(h,T)
        if h in s.sp.get('r',{}): 
            if not re.fullmatch(r'\w+',a): a=s.let(b,a)
            s.ob(b,f'r_{h} {a}',f'read of {h} within bounds')
        if T[0]=='int' and not s.isabs(T): return Val(f'(ld_{h} h_{h} {par(a)})',T)
        return Val(f'(get h_{h} {par(a)})',T)
    def store(s,b,h,a,v):
        s.uheap(h,v.T); s.written.add(h)
        if not re.fullmatch(r'\w+',a): a=s.let(b,a)
        if h in s.sp.get('w',{}): s.ob(b,f'w_{h} {a}',f'write of {h} within bounds')
        s.st(b,f'h_{h} <- set h_{h} {a} {par(v.t)}')
    # --- lvalues: ('var',name,T) ('heap',h,addr,T) ('rec',addr,T) ('lrec',prefix,T) ('map',name,idx,T)
    def lval(s,b,e):
        k=e['kind']
        if k=='ParenExpr': return s.lval(b,e['inner'][0])
        if k=='DeclRefExpr':
            d=e['referencedDecl']; v=s.env.get(d['id'])
            if v is None:
                g=s.tu.glob.get(d['name'])
                if g is not None: return s.globvar(g)
                raise Unsupported('reference to '+d['name'])
            return v
        T=s.tu.ctype(e['type'])
        if k=='UnaryOperator' and e['opcode']=='*':
            p=s.exact(b,s.expr(b,e['inner'][0])); return s.at(p.t,T)
        if k=='ArraySubscriptExpr':
            base,idx=e['inner']
            if s.tu.ctype(idx['type'])[0]=='ptr': base,idx=idx,base
            # local array without address?
            x=base
            while x['kind'] in('ImplicitCastExpr','ParenExpr'): x=x['inner'][0]
            if x['kind'] in('DeclRefExpr',) and x['referencedDecl']['id'] in s.env:
                v=s.env[x['referencedDecl']['id']]
                if v[0]=='lmap': i=s.exact(b,s.expr(b,idx)); return ('map',v[1],i.t,v[2][1])
                if v[0]=='mrecarr': return ('mrec',v[1],s.exact(b,s.expr(b,idx)).t,v[2][1])
                if v[0]=='lrecarr':
                    i=s.expr(b,idx)
                    if not re.fullmatch(r'\d+',i.t): raise Unsupported('local record array index')
                    return ('lrec',f'{v[1]}_{i.t}',v[2][1])
            if x['kind']=='DeclRefExpr' and x['referencedDecl']['id'] not in s.env and x['referencedDecl']['name'] in s.tu.glob:
                g=s.tu.glob[x['referencedDecl']['name']]; gt=s.tu.ctype(g['type'])
                if gt[0]=='arr' and g.get('inner') and 'const' in g['type']['qualType']:
                    i=s.exact(b,s.expr(b,idx)); return ('const',s.u.consttab(g,gt,s),i.t,gt[1])
            p=s.exact(b,s.expr(b,base)); p=s.fixif(b,p,idx); i=s.exact(b,s.expr(b,idx))
            sc=count(T)
            return s.at(add(p.t,mulc(i.t,sc)),T)
        if k=='MemberExpr':
            f=e['name']; base=e['inner'][0]
            if e.get('isArrow'):
                p=s.exact(b,s.expr(b,base)); R=s.tu.ctype(base['type'])[1]
                return s.field(p.t,R,f,T)
            v=s.lval(b,base)
            if v[0]=='rec': return s.field(v[1],v[2],f,T)
            if v[0]=='mrec':
                if T[0]=='arr': raise Unsupported('array in a local array of records')
                return ('mrec',f'{v[1]}_{f}',v[2],T) if T[0]=='rec' else ('map',f'{v[1]}_{f}',v[2],T)
            if v[0]=='lrec':
                if T[0]=='rec': return ('lrec',f'{v[1]}_{f}',T)
                if T[0]=='arr': return ('lmap',f'{v[1]}_{f}',T)
                return ('var',f'{v[1]}_{f}',T)
            raise Unsupported('member of '+v[0])
        if k=='ImplicitCastExpr' and e.get('castKind') in('NoOp',): return s.lval(b,e['inner'][0])
        raise Unsupported('lvalue '+k)
    def fixif(s,b,p,idx):
        return p
    def at(s,a,T):
        if T[0]=='rec': return ('rec',a,T)
        if T[0]=='arr': return ('arr',a,T)
        return ('heap',hname(T),a,T)
    def field(s,p,R,f,T):
        h=f'{R[1]}_{f}'.replace(' ','_'); h=san(h)
        if T[0]=='rec': return ('rec',f'(sub_{h} {par(p)})',T) if s.u.subs.setdefault(h,R) else None
        if T[0]=='arr':
            s.u.subs.setdefault(h,R); return ('arr',f'(sub_{h} {par(p)})',T)
        return ('heap',h,p,T)
    def globvar(s,g):
        T=s.tu.ctype(g['type'])
        if T[0]=='arr':
            s.u.globs[g['name']]=T; return ('arr','g_'+g['name'],T)
        if T[0]=='rec': s.u.globs[g['name']]=T; return ('rec','g_'+g['name'],T)
        h='glob_'+g['name']; s.uheap(h,T); return ('heap',h,'0',T)
    def rd(s,b,l):
        k=l[0]
        if k=='var': return Val(l[1],l[2],True,False if s.ismut(l[1]) else True)
        if k=='heap': return s.load(b,l[1],l[2],l[3])
        if k=='map': return Val(f'(get {l[1]} {par(l[2])})',l[3])
        if k=='const': return Val(f'({l[1]} {par(l[2])})',l[3])
        raise Unsupported('read of '+k)
    def ismut(s,n): return n in s.muts
    def wr(s,b,l,v):
        k=l[0]
        if k=='var':
            v=s.exact(b,s.conv(b,v,l[2])); s.st(b,f'{l[1]} <- {v.t}')
        elif k=='heap':
            v=s.exact(b,s.conv(b,v,l[3])); s.store(b,l[1],l[2],v)
            for g in s.sp.get('keep',[]): s.st(b,s.txt(f'assert {{ {g} }}'))
        elif k=='map': v=s.exact(b,s.conv(b,v,l[3])); s.st(b,f'{l[1]} <- set {l[1]} {par(l[2])} {par(v.t)}')
        else: raise Unsupported('write of '+k)
        return v
    def conv(s,b,v,T):
        if v.T==T or T[0] in('ptr',) or v.T[0]!='int' or T[0]!='int': return v
        return s.icast(b,v,T)
    def recparts(s,b,l):
        """scalar lvalues of a record lvalue, in order"""
        out=[]
        if l[0]=='rec':
            for f,t in s.tu.fields(l[2][1]):
                q=s.field(l[1],l[2],f,t)
                if q[0]=='rec': out+=s.recparts(b,q)
                elif q[0]=='arr': raise Unsupported('copy of record with array')
                else: out.append(q)
        elif l[0]=='lrec':
            for f,t in s.tu.fields(l[2][1]):
                if t[0]=='rec': out+=s.recparts(b,('lrec',f'{l[1]}_{f}',t))
                elif t[0]=='arr': raise Unsupported('copy of record with array')
                else: out.append(('var',f'{l[1]}_{f}',t))
        elif l[0]=='mrec':
            for f,t in s.tu.fields(l[2+1][1]):
                if t[0]=='rec': out+=s.recparts(b,('mrec',f'{l[1]}_{f}',l[2],t))
                elif t[0]=='arr': raise Unsupported('copy of record with array')
                else: out.append(('map',f'{l[1]}_{f}',l[2],t))
        else: raise Unsupported('record '+l[0])
        return out
    # --- expressions
    def icast(s,b,v,T):
        lo,hi=rng(T)
        if s.isabs(T) or s.isabs(v.T):
            m=re.fullmatch(r'\(k_\w+ \(?(-?\d+)\)?\)',v.t)
            if m and v.T[0]=='int' and T[0]=='int' and v.T!=T:
                x=int(m.group(1)); x&=(1<<T[1])-1
                if T[2] and x>>(T[1]-1): x-=1<<T[1]
                return s.lit(x,T)
            if v.T[0]=='int' and s.isabs(T) and re.fullmatch(r'\(?-?\d+\)?',v.t): return Val(f'(k_{s.wt(T)} {par(v.t)})',T)
            if v.T==T: return v
            a=v.T[3] if v.T[0]=='int' else v.T[1]; c=T[3] if T[0]=='int' else T[1]
            s.u.absop(f'c_cast_{a}_{c}',[s.wt(v.T)],s.wt(T),rng(T) if not s.isabs(T) else None)
            return Val(f'(c_cast_{a}_{c} {par(v.t)})',T)
        if v.exact:
            l0,h0=rng(v.T)
            if lo<=l0 and h0<=hi: return Val(v.t,T,True,v.simple)
            m=re.fullmatch(r'\(?(-?\d+)\)?',v.t)
            if m:
                x=int(m.group(1)); x&=(1<<T[1])-1
                if T[2] and x>>(T[1]-1): x-=1<<T[1]
                return Val(str(x) if x>=0 else f'({x})',T)
            return Val(v.t,T,False,v.simple)
        if T[1]<=v.T[1]: return Val(v.t,T,False,v.simple)
        v=s.exact(b,v); return s.icast(b,v,T)
    def expr(s,b,e):
        k=e['kind']
        if k in('ParenExpr','ConstantExpr'): return s.expr(b,e['inner'][0])
        if k=='IntegerLiteral': return s.lit(int(e['value']),s.tu.ctype(e['type']))
        if k=='CharacterLiteral': return s.lit(int(e['value']),s.tu.ctype(e['type']))
        if k=='FloatingLiteral':
            T=s.tu.ctype(e['type']); return s.flit(float(e['value']),T)
        if k=='UnaryExprOrTypeTraitExpr':
            if e['name']!='sizeof': raise Unsupported(e['name'])
            T=s.tu.ctype(e['argType']) if 'argType' in e else s.tu.ctype(e['inner'][0]['type'])
            return s.lit(s.tu.size(T),U64)
        if k=='OffsetOfExpr':
            T,f=s.tu.offsets()[e['id']]
            if 'unnamed' in T or '.' in f: return Val(s.let(b,'any int ensures { 0 <= result <= 64 }'),U64)  # ALIGNOF: a small number
            return s.lit(s.tu.offsetof(s.tu.parse(T),f),U64)
        if k=='DeclRefExpr':
            d=e['referencedDecl']
            if d['kind']=='EnumConstantDecl': return s.lit(s.tu.enum[d['name']],I32)
            if d['kind']=='FunctionDecl': return s.fnval(d['name'],('ptr',('fun',)))
            return s.rd(b,s.lval(b,e))
        if k in('ImplicitCastExpr','CStyleCastExpr'): return s.cast(b,e)
        if k=='BinaryOperator': return s.binop(b,e)
        if k=='CompoundAssignOperator': return s.compound(b,e)
        if k=='UnaryOperator': return s.unop(b,e)
        if k=='ConditionalOperator':
            c,x,y=e['inner']; c=s.cond(b,c); bx=[]; by=[]; vx=s.exact(bx,s.expr(bx,x)); vy=s.exact(by,s.expr(by,y)); T=s.tu.ctype(e['type'])
            if T[0]=='void': s.st(b,f'if {c} then begin {s.render(bx)} end else begin {s.render(by)} end'); return Val('()',T)
            return s.fix(b,Val(f'(if {c} then ({s.render(bx,vx.t)}) else ({s.render(by,vy.t)}))',T))
        if k=='CallExpr': return s.call(b,e)
        if k in('ArraySubscriptExpr','MemberExpr'): return s.rd(b,s.lval(b,e))
        raise Unsupported('expression '+k)
    def lit(s,n,T):
        if s.isabs(T): return Val(f'(k_{s.wt(T)} {n if n>=0 else "(%d)"%n})',T)
        return Val(str(n) if n>=0 else f'({n})',T)
    def flit(s,x,T):
        if T[1]=='f32':
            import struct
            x=struct.unpack('f',struct.pack('f',x))[0]
        if s.isabs(T):
            if x==int(x): return s.lit(int(x),T)
            n=re.sub(r'\W','_',repr(x)); s.u.absop(f'k_{s.wt(T)}_{n}',[],s.wt(T),None); return Val(f'k_{s.wt(T)}_{n}',T)
        from fractions import Fraction
        t=rlit(abs(x)); return Val(t if x>=0 else f'(rneg {t})',T)
    def discard(s,b,e):
        k=e['kind']
        if k in('ParenExpr',) : return s.discard(b,e['inner'][0])
        if k=='CStyleCastExpr' and s.tu.ctype(e['type'])[0]=='void': return s.discard(b,e['inner'][0])
        if k=='BinaryOperator' and e['opcode']==',': s.discard(b,e['inner'][0]); return s.discard(b,e['inner'][1])
        if k=='UnaryOperator' and e['opcode'] in('++','--'): return s.incdec(b,e,False)
        if k=='BinaryOperator' and e['opcode']=='=': return s.assign(b,e,False)
        if k=='CompoundAssignOperator': return s.compound(b,e,False)
        if k=='BinaryOperator' and e['opcode'] in('&&','||'): s.cond(b,e); return
        if k=='ConditionalOperator':
            c,x,y=e['inner']; c=s.cond(b,c); bx=[]; by=[]; s.discard(bx,x); s.discard(by,y)
            s.st(b,f'if {c} then begin {s.render(bx)} end else begin {s.render(by)} end'); return
        v=s.expr(b,e)
    def cast(s,b,e):
        ck=e['castKind']; x=e['inner'][0]
        if ck=='LValueToRValue': return s.rd(b,s.lval(b,x))
        if ck in('NoOp','ConstructorConversion'): 
            v=s.expr(b,x); return v
        T=s.tu.ctype(e['type'])
        if ck=='ArrayToPointerDecay':
            y=x
            while y['kind'] in('ParenExpr','PredefinedExpr') and y.get('inner'): y=y['inner'][0]
            if y['kind']=='StringLiteral': return Val('strlit',T,True,True)
            l=s.lval(b,x)
            if l[0]=='arr': return Val(l[1],T)
            if l[0]=='heaparr': return Val(l[1],T,True,True)
            if l[0]=='opaque': return Val('strlit',T,True,True)
            raise Unsupported('decay of '+l[0])
        if ck in('IntegralCast','BooleanToSignedIntegral'): return s.icast(b,s.expr(b,x),T)
        if ck=='NullToPointer': return Val('0',T)
        if ck=='IntegralToFloating':
            v=s.exact(b,s.expr(b,x))
            if s.isabs(T) or s.isabs(v.T):
                m=re.fullmatch(r'(?:\(k_\w+ )?(\(?-?\d+\)?)\)?',v.t)
                if m: return Val(f'(k_{s.wt(T)} {m.group(1)})',T)
                a=v.T[3]; s.u.absop(f'c_cast_{a}_{T[1]}',[s.wt(v.T)],s.wt(T),None); return Val(f'(c_cast_{a}_{T[1]} {par(v.t)})',T)
            if re.fullmatch(r'\d+',v.t): return Val(v.t+'.0',T)
            if re.fullmatch(r'\(-\d+\)',v.t): return Val(f'(rneg {v.t[2:-1]}.0)',T)
            return Val(f'(rofint {par(v.t)})',T)
        if ck=='FloatingToIntegral':
            v=s.expr(b,x)
            if s.isabs(v.T):
                c=T[3]; s.u.absop(f'c_cast_{v.T[1]}_{c}',[s.wt(v.T)],s.wt(T),rng(T) if not s.isabs(T) else None); return Val(f'(c_cast_{v.T[1]}_{c} {par(v.t)})',T)
            t=s.let(b,f'(rtrunc {par(v.t)})'); v=Val(t,T,False,True); return s.exact(b,v,'conversion in range')
        if ck=='FloatingCast':
            v=s.expr(b,x)
            if s.isabs(T) or s.isabs(v.T):
                if v.T==T: return v
                s.u.absop(f'c_cast_{v.T[1]}_{T[1]}',[s.wt(v.T)],s.wt(T),None); return Val(f'(c_cast_{v.T[1]}_{T[1]} {par(v.t)})',T)
            return Val(v.t,T)
        if ck=='BitCast': return s.ptrcast(b,x,T)
        if ck=='IntegralToBoolean' or ck=='PointerToBoolean': return Val(f'(if {s.cond(b,x)} then 1 else 0)',I32)
        if ck=='PointerToIntegral': 
            v=s.expr(b,x); S=v.T[1]; u=s.unit(S); return Val(mulc(v.t,u),T)
        if ck=='ToVoid': s.discard(b,x); return Val('()',('void',))
        raise Unsupported('cast '+ck)
    def unit(s,T):
        T=inner(T)
        if T[0]=='fun': return 1
        return s.tu.size(T)
    def ptrcast(s,b,x,T):
        """(T)x between pointer types"""
        y=x
        while y['kind']=='ParenExpr' or (y['kind']=='ImplicitCastExpr' and y['castKind'] in('NoOp','BitCast')): y=y['inner'][0]
        S=s.tu.ctype(x['type']); ut=s.unit(T[1])
        # (T*)((char*)P + e)
        if y['kind']=='BinaryOperator' and y['opcode'] in '+-' and s.tu.ctype(y['type'])[0]=='ptr' and s.unit(s.tu.ctype(y['type'])[1])==1 and ut>1:
            p,o=y['inner']
            q=p
            while q['kind'] in('ParenExpr','CStyleCastExpr','ImplicitCastExpr') and q.get('castKind','BitCast') in('BitCast','NoOp'): q=q['inner'][0]
            Q=s.tu.ctype(q['type'])
            if Q[0]=='ptr' and s.unit(Q[1])==ut:
                pv=s.fixm(b,s.exact(b,s.expr(b,q)),o); d=s.divexact(b,o,ut)
                return Val(f'({pv.t} {y["opcode"]} {par(d)})',T)
            if Q[0]=='ptr' and Q[1][0] in('void',) or (Q[0]=='ptr' and s.unit(Q[1])==1):
                pv=s.exact(b,s.expr(b,q)); t=pv.t if re.fullmatch(r'\w+',pv.t) else s.let(b,pv.t); s.ob(b,f'mod {t} {ut} = 0','aligned pointer'); d=s.divexact(b,o,ut)
                return Val(f'((ediv {t} {ut}) {y["opcode"]} {par(d)})',T)
        v=s.exact(b,s.expr(b,x)); us=s.unit(S[1]) if S[0]=='ptr' else 1
        if us==ut: return Val(v.t,T,True,v.simple)
        if us==1 and inner(T[1])[0]=='rec' and ut not in(2,4,8) and S[0]=='ptr' and inner(S[1])[0]=='void':
            # an untyped block seen as an array of records: its index range in the record heaps
            if re.fullmatch(r'\(?0\)?',v.t): return Val('0',T,True,True)
            n='recp_'+san(inner(T[1])[1]); s.u.recps.add(n); return Val(f'({n} {par(v.t)})',T)
        if ut==1: return Val(mulc(v.t,us),T)
        m=re.fullmatch(r'\((\d+) \* (\w+)\)',v.t)
        if us==1 and m and int(m.group(1))==ut: return Val(m.group(2),T)
        t=mulc(v.t,us); 
        if not re.fullmatch(r'\w+',t): t=s.let(b,t)
        s.ob(b,f'mod {t} {ut} = 0','aligned pointer')
        return Val(f'(ediv {t} {ut})',T)
    def fixm(s,b,v,other): return s.fix(b,v) if not v.simple else v
    def divexact(s,b,e,u):
        """e / u for an exact division"""
        x=e
        while x['kind'] in('ParenExpr',) or (x['kind']=='ImplicitCastExpr' and x['castKind']=='IntegralCast' and s.widening(x)): x=x['inner'][0]
        if x['kind']=='BinaryOperator' and x['opcode']=='*':
            l,r=x['inner']; T=s.tu.ctype(x['type'])
            # product in the C type, no overflow
            lv=s.exact(b,s.expr(b,l)); rv=s.exact(b,s.expr(b,r))
            for p,q in((lv,rv),(rv,lv)):
                if re.fullmatch(r'\d+',q.t) and int(q.t)%u==0:
                    s.exact(b,Val(f'({p.t} * {q.t})',T,False)); return mulc(p.t,int(q.t)//u)
            s.exact(b,Val(f'({par(lv.t)} * {par(rv.t)})',T,False))
            if not re.fullmatch(r'\w+',rv.t) and re.fullmatch(r'\w+',lv.t) and not s.ismut(lv.t): lv,rv=rv,lv
            rt=rv.t if re.fullmatch(r'\w+',rv.t) else s.let(b,rv.t)
            s.ob(b,f'mod {rt} {u} = 0','stride is a multiple of the element size')
            return f'({par(lv.t)} * (ediv {rt} {u}))'
        v=s.exact(b,s.expr(b,e))
        if re.fullmatch(r'\d+',v.t):
            if int(v.t)%u==0: return str(int(v.t)//u)
        t=v.t if re.fullmatch(r'\w+',v.t) else s.let(b,v.t)
        s.ob(b,f'mod {t} {u} = 0','offset is a multiple of the element size')
        return f'(ediv {t} {u})'
    def widening(s,x):
        a=s.tu.ctype(x['type']); c=s.tu.ctype(x['inner'][0]['type'])
        return a[0]=='int' and c[0]=='int' and not s.isabs(a) and not s.isabs(c) and rng(a)[0]<=rng(c)[0] and rng(c)[1]<=rng(a)[1]
    def two(s,b,x,y):
        v=s.expr(b,x); n=len(b); w=s.expr(b,y)
        if len(b)>n and not re.fullmatch(r'\(?-?[\d.]+\)?',v.t) and not (v.simple and not s.ismut(v.t)):
            t=s.tmp(); b.insert(n,('let',f'let {t} = {v.t} in')); v=Val(t,v.T,v.exact,True)
        return v,w
    REL={'<':'<','>':'>','<=':'<=','>=':'>=','==':'=','!=':'<>'}
    def cond(s,b,e):
        k=e['kind']
        if k=='ParenExpr': return s.cond(b,e['inner'][0])
        if k=='ImplicitCastExpr' and e['castKind'] in('IntegralToBoolean','PointerToBoolean','IntegralCast') and s.boolish(e['inner'][0]): return s.cond(b,e['inner'][0])
        if k=='UnaryOperator' and e['opcode']=='!': return f'(not {s.cond(b,e["inner"][0])})'
        if k=='BinaryOperator' and e['opcode'] in('&&','||'):
            x,y=e['inner']; c=s.cond(b,x); by=[]; d=s.cond(by,y)
            if not by: return f'({c} {e["opcode"]} {d})'
            t=s.tmp()
            if e['opcode']=='&&': s.let(b,f'(if {c} then ({s.render(by,d)}) else false)',name=t)
            else: s.let(b,f'(if {c} then true else ({s.render(by,d)}))',name=t)
            return t
        if k=='BinaryOperator' and e['opcode']==',': s.discard(b,e['inner'][0]); return s.cond(b,e['inner'][1])
        if k=='BinaryOperator' and e['opcode'] in s.REL:
            v,w=s.two(b,*e['inner']); op=e['opcode']
            if s.isabs(v.T):
                t=s.wt(v.T)
                nm={'<':('lt',0),'>':('lt',1),'<=':('le',0),'>=':('le',1),'==':('eq',0),'!=':('eq',0)}[op]
                s.u.absop(f'c_{nm[0]}_{t}',[t,t],'bool',None); x,y=(w,v) if nm[1] else (v,w)
                r=f'(c_{nm[0]}_{t} {par(x.t)} {par(y.t)})'; return f'(not {r})' if op=='!=' else r
            if v.T[0]=='fl':
                nm={'<':('rlt',0),'>':('rlt',1),'<=':('rle',0),'>=':('rle',1),'==':('req',0),'!=':('req',0)}[op]; x,y=(w,v) if nm[1] else (v,w)
                r=f'({nm[0]} {par(x.t)} {par(y.t)})'; return f'(not {r})' if op=='!=' else r
            n=len(b); v=s.exact(b,v); w=s.exact(b,w)
            return f'({v.t} {s.REL[op]} {w.t})'
        if k=='BinaryOperator' and e['opcode']=='=' : 
            v=s.assign(b,e,True)
        else: v=s.expr(b,e)
        m=re.fullmatch(r'\(if (.*) then 1 else 0\)',v.t)
        if m and '\n' not in v.t and v.t.count('if ')==1: return m.group(1)
        if s.isabs(v.T): t=s.wt(v.T); s.u.absop(f'c_eq_{t}',[t,t],'bool',None); return f'(not (c_eq_{t} {par(v.t)} (k_{t} 0)))'
        if v.T[0]=='fl': return f'(not (req {par(v.t)} 0.0))'
        v=s.exact(b,v); return f'({v.t} <> 0)'
    def boolish(s,e):
        k=e['kind']
        if k=='ParenExpr': return s.boolish(e['inner'][0])
        return (k=='BinaryOperator' and (e['opcode'] in s.REL or e['opcode'] in('&&','||'))) or (k=='UnaryOperator' and e['opcode']=='!')
    def binop(s,b,e):
        op=e['opcode']; x,y=e['inner']
        if op==',': s.discard(b,x); return s.expr(b,y)
        if op=='=': return s.assign(b,e,True)
        if op in s.REL or op in('&&','||'): return Val(f'(if {s.cond(b,e)} then 1 else 0)',I32)
        v,w=s.two(b,x,y); return s.arith(b,op,v,w,s.tu.ctype(e['type']),y)
    def arith(s,b,op,v,w,T,ye=None):
        if s.isabs(T) :
            t=s.wt(T); nm={'+':'add','-':'sub','*':'mul','/':'div'}.get(op)
            if not nm: raise Unsupported('abstract '+op)
            m1,m2=re.fullmatch(r'\(k_\w+ \(?(-?\d+)\)?\)',v.t),re.fullmatch(r'\(k_\w+ \(?(-?\d+)\)?\)',w.t)
            if m1 and m2 and T[0]=='int' and op in '+-*':
                x,y=int(m1.group(1)),int(m2.group(1)); z={'+':x+y,'-':x-y,'*':x*y}[op]
                if rng(T)[0]<=z<=rng(T)[1]: return s.lit(z,T)
            s.u.absop(f'c_{nm}_{t}',[t,t],t,None); return Val(f'(c_{nm}_{t} {par(v.t)} {par(w.t)})',T)
        if T[0]=='fl':
            nm={'+':'radd','-':'rsub','*':'rmul','/':'rdiv'}[op]
            if op=='/': pass
            return Val(f'({nm} {par(v.t)} {par(w.t)})',T)
        if T[0]=='ptr':
            if v.T[0]=='ptr': p,i=v,w
            else: p,i=w,v
            i=s.exact(b,i); sc=count(T[1])
            return Val(f'({par(p.t)} {op} {par(mulc(i.t,sc))})',T)
        if v.T[0]=='ptr' and w.T[0]=='ptr' and op=='-':
            if count(v.T[1])!=1: raise Unsupported('difference of array pointers')
            return Val(f'({par(v.t)} - {par(w.t)})',T)
        if op in '+-*':
            if op=='*' and not (v.exact and w.exact): pass
            r=Val(f'({par(v.t)} {op} {par(w.t)})',T,False)
            r=cfold(r,op)
            if T[2]: v=s.exact(b,v); w=s.exact(b,w); r=Val(f'({par(v.t)} {op} {par(w.t)})',T,False); r=cfold(r,op); r=s.exact(b,r,'no signed overflow') if not r.exact else r
            return r
        if op in('<<','>>') and not s.isabs(T):
            m=re.fullmatch(r'\(k_\w+ (\d+)\)',w.t)
            if m: w=Val(m.group(1),U32)
        if op=='<<':
            w=s.nm(b,s.exact(b,w)); v_=v if not T[2] else s.exact(b,v)
            if not re.fullmatch(r'\d+',w.t): 
                s.ob(b,f'0 <= {w.t} < {T[1]}','shift count'); return s.chk(b,Val(f'({par(v_.t)} * pow2 {par(w.t)})',T,False))
            if re.fullmatch(r'\d+',v_.t): return s.chk(b,Val(str(int(v_.t)<<int(w.t)),T,False))
            return s.chk(b,Val(f'({par(v_.t)} * {1<<int(w.t)})',T,False))
        if op=='&':
            for p,q in((v,w),(w,v)):
                if re.fullmatch(r'\d+',q.t) and (int(q.t)&(int(q.t)+1))==0 and int(q.t)<=rng(T)[1] and not (T[2] and int(q.t)==0): return Val(f'(emod {par(p.t)} {int(q.t)+1})',T)
        v=s.exact(b,v); w=s.exact(b,w)
        v=s.nm(b,v); w=s.nm(b,w)
        if op in '/%':
            if not re.fullmatch(r'[1-9]\d*',w.t): s.ob(b,f'{w.t} <> 0','division by zero')
            elif re.fullmatch(r'\d+',v.t): return Val(str(int(v.t)//int(w.t) if op=='/' else int(v.t)%int(w.t)),T)
            if T[2]:
                return Val(f'({"tdiv" if op=="/" else "tmod"} {par(v.t)} {par(w.t)})',T,True) if rng(T)[0]!=0 else None
            return Val(f'({"ediv" if op=="/" else "emod"} {par(v.t)} {par(w.t)})',T)
        if op=='>>':
            if T[2]: s.ob(b,f'0 <= {v.t}','shift of a non-negative value')
            if re.fullmatch(r'\d+',w.t): return Val(f'(ediv {par(v.t)} {1<<int(w.t)})',T)
            s.ob(b,f'0 <= {w.t} < {T[1]}','shift count'); return Val(f'(ediv {par(v.t)} (pow2 {par(w.t)}))',T)
        if op in '&|^':
            nm={'&':'c_band','|':'c_bor','^':'c_bxor'}[op]
            if T[2]: 
                s.ob(b,f'0 <= {v.t} /\\ 0 <= {w.t}','bit operation on non-negative values')
            return Val(f'({nm} {par(v.t)} {par(w.t)})',T)
        raise Unsupported('operator '+op)
    def chk(s,b,r):
        m=re.fullmatch(r'\d+',r.t)
        if m and int(r.t)<=rng(r.T)[1]: return Val(r.t,r.T)
        return s.exact(b,r,'no signed overflow') if r.T[2] else r
    def assign(s,b,e,val):
        x,y=e['inner']; T=s.tu.ctype(e['type'])
        if T[0]=='rec':
            r=s.recval(b,y); l=s.recparts(b,s.lval(b,x)); vs=[]
            vs=[s.let(b,v.t) for v in r]
            for q,v,n in zip(l,r,vs): s.wr(b,q,Val(n,v.T,True,True))
            return None
        l=s.lvfix(b,x); w=s.exact(b,s.expr(b,y),'value in range of the assigned type')
        if l[0]=='heap' and not re.fullmatch(r'\w+',w.t): w=Val(s.let(b,w.t),w.T,True,True)
        w=s.wr(b,l,w)
        if val: return Val(l[1],l[2]) if l[0]=='var' else s.fix(b,w)
    def recval(s,b,y):
        while y['kind'] in('ParenExpr',) or (y['kind']=='ImplicitCastExpr' and y['castKind'] in('LValueToRValue','NoOp')): y=y['inner'][0]
        if y['kind']=='CallExpr':
            v=s.call(b,y); F=s.flat('',v.T); n=[s.tmp() for _ in F]
            b.append(('let',f'let ({", ".join(n)}) = {v.t} in')); return [Val(x,t,True,True) for x,(_,t) in zip(n,F)]
        return [s.rd(b,q) for q in s.recparts(b,s.lval(b,y))]
    def lvfix(s,b,x):
        """lvalue whose address is evaluated once"""
        l=s.lval(b,x)
        if l[0]=='heap' and not (re.fullmatch(r'\w+',l[2]) and not s.ismut(l[2])): return ('heap',l[1],s.let(b,l[2]),l[3])
        if l[0]=='map' and not re.fullmatch(r'\d+',l[2]): return ('map',l[1],s.let(b,l[2]),l[3])
        return l
    def compound(s,b,e,val=True):
        x,y=e['inner']; op=e['opcode'][:-1]; T=s.tu.ctype(e['type']); CT=s.tu.ctype(e['computeResultType']); LT=s.tu.ctype(e['computeLHSType'])
        l=s.lvfix(b,x); v=s.rd(b,l); 
        n=len(b); w=s.expr(b,y)
        if len(b)>n: t=s.tmp(); b.insert(n,('let',f'let {t} = {v.t} in')); v=Val(t,v.T,v.exact,True)
        if T[0]=='int' and LT[0]=='int': v=s.icast(b,v,LT)
        elif LT[0]=='fl' and T[0]=='int': raise Unsupported('mixed compound')
        r=s.arith(b,op,v,w,CT,y)
        if CT[0]=='int' and T[0]=='int': r=s.icast(b,r,T)
        if l[0]=='heap':
            r=s.exact(b,r); r=Val(s.let(b,r.t),r.T,True,True)
        r=s.wr(b,l,r)
        if val: return Val(l[1],l[2]) if l[0]=='var' else r
    def incdec(s,b,e,val=True):
        l=s.lvfix(b,e['inner'][0]); v=s.rd(b,l); T=v.T
        post=e.get('isPostfix')
        if val and post: v=Val(s.let(b,v.t),T,True,True)
        elif l[0]=='heap': v=Val(s.let(b,v.t),T,True,True)
        step='1' if T[0]!='ptr' else str(count(T[1]))
        if s.isabs(T): raise Unsupported('increment of abstract value')
        r=Val(f'({v.t} {e["opcode"][0]} {step})',T,T[0]=='ptr')
        s.wr(b,l,r)
        if not val: return None
        if post: return v
        return Val(l[1],l[2]) if l[0]=='var' else s.rd(b,l)
    def unop(s,b,e):
        op=e['opcode']; x=e['inner'][0]; T=s.tu.ctype(e['type'])
        if op in('++','--'): return s.incdec(b,e)
        if op=='*': return s.rd(b,s.lval(b,e))
        if op=='!': return Val(f'(if {s.cond(b,e)} then 1 else 0)',I32)
        if op=='+': return s.expr(b,x)
        if op=='&':
            y=x
            while y['kind']=='ParenExpr': y=y['inner'][0]
            if y['kind']=='DeclRefExpr' and y['referencedDecl']['kind']=='FunctionDecl': return s.fnval(y['referencedDecl']['name'],T)
            l=s.lval(b,y)
            if l[0]=='heap' and not re.search('_',l[1]): return Val(l[2],T)
            if l[0]=='rec' or l[0]=='arr': return Val(l[1],T)
            if l[0]=='heap':
                return s.addrfield(b,l,T)
            if l[0]=='heaparr': return Val(l[1],T)
            raise Unsupported('address of '+l[0])
        v=s.expr(b,x)
        if op=='-':
            m=re.fullmatch(r'\(k_\w+ (\d+)\)',v.t)
            if s.isabs(T) and m: return s.lit(-int(m.group(1)),T)
            if s.isabs(T): t=s.wt(T); s.u.absop(f'c_neg_{t}',[t],t,None); return Val(f'(c_neg_{t} {par(v.t)})',T)
            if T[0]=='fl': return Val(f'(rneg {par(v.t)})',T)
            if re.fullmatch(r'\d+',v.t) and T[2]: return Val(f'(-{v.t})',T)
            r=Val(f'(- {par(v.t)})',T,False); 
            if T[2]: v=s.exact(b,v); r=s.exact(b,Val(f'(- {par(v.t)})',T,False),'no signed overflow')
            return r
        if op=='~':
            lo,hi=rng(T)
            if T[2]: return Val(f'(-1 - {par(s.exact(b,v).t)})',T)
            v=s.exact(b,v); return Val(f'({hi} - {par(v.t)})',T)
        raise Unsupported('unary '+op)
    def addrfield(s,b,l,T):
        """address of a struct field: a pointer value through which the field is not accessed by type (see model)"""
        fa=s.sp.get('fieldaddr',{})
        if l[1] in fa: return Val('('+fa[l[1]].replace('$',par(l[2]))+')',T)
        raise Unsupported('address of field '+l[1])
    # --- calls
    def call(s,b,e):
        f=e['inner'][0]
        while f['kind'] in('ImplicitCastExpr','ParenExpr'): f=f['inner'][0]
        if f['kind']!='DeclRefExpr' or f['referencedDecl']['kind']!='FunctionDecl': 
            return s.fcall(b,f,e)
        name=f['referencedDecl']['name']; args=e['inner'][1:]
        T=s.tu.ctype(e['type'])
        if name in('memcpy','__builtin_memcpy','memmove') and 'memcpy' not in s.u.extern: return s.memcpy(b,args,name)
        if name in('memset','__builtin_memset'): return s.memset(b,args)
        if name=='printf' or name=='fprintf': return Val('0',I32)
        if name in('fabs','__builtin_fabs') and not s.isabs(('fl','f64',8)): v=s.expr(b,args[0]); return Val(f'(rabs {par(v.t)})',T)
        if name in ('sqrt','cos','sin','floor','ceil') and name not in s.u.extern and not s.isabs(('fl','f64',8)): v=s.expr(b,args[0]); return Val(f'(r{name} {par(v.t)})',T)
        if name in s.u.specs or name in s.u.extern:
            return s.ccall(b,name,args,T)
        if name in s.tu.fn:
            if name in s.inl: raise Unsupported('recursion without contract: '+name)
            return s.inline(b,name,args,T)
        raise Unsupported('call of '+name)
    def fcall(s,b,f,e):
        """call through a pointer: checked against the interface contract '*<typedef or name>' in the externs"""
        while f['kind'] in('ImplicitCastExpr','ParenExpr') or (f['kind']=='UnaryOperator' and f['opcode']=='*'): f=f['inner'][0]
        n=None
        if f['kind']=='DeclRefExpr':
            q=f['type'].get('qualType','').replace('*','').replace('const','').replace('restrict','').strip(); n='fp_'+san(q)
        elif f['kind'] in('ArraySubscriptExpr','MemberExpr'):
            # the pointer itself becomes the first argument of the interface contract
            q=f['type'].get('qualType','').replace('*','').replace('const','').replace('restrict','').strip(); n='fp_'+san(q)+'_at'
            if n in s.u.extern: return s.ccall(b,n,[e['inner'][0]]+e['inner'][1:],s.tu.ctype(e['type']))
        if n not in s.u.extern: raise Unsupported('call through a pointer')
        return s.ccall(b,n,e['inner'][1:],s.tu.ctype(e['type']))
    def ccall(s,b,name,args,T):
        vs=[]; x=s.u.extern.get(name)
        if x is not None and 'take' in x: args=[args[i] for i in x['take']]
        for a in args:
            if s.tu.ctype(a['type'])[0]=='rec':
                vs+=[Val(s.let(b,v.t),v.T,True,True) for v in s.recval(b,a)]; continue
            n=len(b); v=s.exact(b,s.expr(b,a)); vs.append(v)
            if len(b)>n:
                for i,w in enumerate(vs[:-1]):
                    if not re.fullmatch(r'\(?-?[\d.]+\)?',w.t) and not (w.simple and not s.ismut(w.t)): t=s.tmp(); b.insert(n,('let',f'let {t} = {w.t} in')); n+=1; vs[i]=Val(t,w.T,True,True)
        sp=s.u.specs.get(name) or s.u.extern[name]
        # name the arguments, so that footprints can be instantiated
        ns=[v.t if re.fullmatch(r'\w+',v.t) and not s.ismut(v.t) else s.let(b,v.t) for v in vs]
        s.callees.append(name); at=' '.join(ns) or '()'
        at=' '.join(ns) or '()'; pn=[san(p) for p in s.u.params(name)]
        gx=s.txt(s.sp.get('callghost',{}).get(name,'')); gn=re.findall(r'\(ghost (\w+):',sp.get('ghostparams',''))
        gt=[]; dep=0; cur=''
        for ch in gx+' ':
            if ch==' ' and dep==0:
                if cur: gt.append(cur)
                cur=''
            else: dep+=(ch=='(')-(ch==')'); cur+=ch
        if gn and len(gt)==len(gn): pn=pn+gn; ns=ns+gt
        for h in sp.get('w',{}):
            s.uheap(h); s.written.add(h)
            if h in s.sp.get('w',{}): s.ob(b,f'forall a. ({s.u.inst(sp["w"][h],pn,ns,"h_")}) -> w_{h} a',f'{name} writes within bounds')
        for h in sp.get('r',{}):
            s.uheap(h)
            if h in s.sp.get('r',{}): s.ob(b,f'forall a. ({s.u.inst(sp["r"][h],pn,ns,"h_")}) -> r_{h} a',f'{name} reads within bounds')
        for h in s.u.spheaps(sp): s.uheap(h)
        extra=s.txt(s.sp.get('callghost',{}).get(name,''))
        s.calln[name]=k=s.calln.get(name,0)+1; gh=s.sp.get('ghost',{})
        s.ghostlines(b,gh.get(('beforecall',name,k),[]))
        if T[0]=='void': s.st(b,f'f_{name} {at} {extra}'); s.ghostlines(b,gh.get(('aftercall',name,k),[])); return Val('()',T)
        t=s.let(b,f'f_{name} {at} {extra}'); s.ghostlines(b,gh.get(('aftercall',name,k),[])); return Val(t,T,True,True)
    def ghostlines(s,b,L):
        for g in L: b.append(('let',s.txt(g)+' in') if g.startswith('let ') else ('st',s.txt(g)))
    def fnval(s,name,T):
        n='fn_'+san(name); s.u.recps.add((n,)); return Val(n,T,True,True)
    def memcpy(s,b,args,name):
        d,sr,n=args
        def strip(x):
            while x['kind'] in('ParenExpr','ImplicitCastExpr','CStyleCastExpr') and x.get('castKind','NoOp') in('NoOp','BitCast'): x=x['inner'][0]
            return x
        d0,s0=strip(d),strip(sr); D=s.tu.ctype(d0['type']); S=s.tu.ctype(s0['type'])
        if D[0]=='arr': D=('ptr',D[1])
        if S[0]=='arr': S=('ptr',S[1])
        ET=inner(D[1]) if D[1][0]!='void' else inner(S[1])
        if s.sp.get('memtype'): ET=s.tu.parse(s.sp['memtype'])
        if ET[0]=='void': ET=('int',8,1,'i8')
        if s.sp.get('memtype')=='char':
            # a scalar local copied to or from bytes: its representation
            for side,x in((0,d0),(1,s0)):
                if x['kind']!='UnaryOperator' or x['opcode']!='&': continue
                y=x['inner'][0]
                while y['kind']=='ParenExpr': y=y['inner'][0]
                if y['kind']!='DeclRefExpr' or s.env.get(y['referencedDecl']['id'],(0,))[0]!='var': continue
                l=s.lval(b,y); L=l[2]; z=s.expr(b,n).t
                if L!=U32 or z not in('4','(4)'): raise Unsupported('copy of a scalar of type %r, size %s'%(L,z))
                o=s.fix(b,s.ptrcastv(b,(sr if side==0 else d),('ptr',ET))); h=hname(ET); s.uheap(h,ET); s.u.bytes4=True
                if side==0:
                    if h in s.sp.get('r',{}): s.ob(b,f'forall a. {o.t} <= a < {o.t} + 4 -> r_{h} a','copy reads within bounds')
                    s.wr(b,l,Val(s.let(b,f'c_ld4 h_{h} {o.t}'),L,True,True)); return Val('0',('ptr',ET),True,True)
                s.written.add(h)
                if h in s.sp.get('w',{}): s.ob(b,f'forall a. {o.t} <= a < {o.t} + 4 -> w_{h} a','copy writes within bounds')
                v=s.rd(b,l); s.st(b,f'h_{h} <- c_st4 h_{h} {o.t} {par(v.t)}'); return Val(o.t,('ptr',ET),True,True)
        dv=s.fix(b,s.ptrcastv(b,d,('ptr',ET))); sv=s.fix(b,s.ptrcastv(b,sr,('ptr',ET))); u=s.unit(ET)
        c=s.divexact(b,n,u) if u>1 else s.exact(b,s.expr(b,n)).t
        c=c if re.fullmatch(r'\w+',c) else s.let(b,c)
        hs=s.rech(ET)
        for h,ht in hs:
            s.uheap(h,ht); s.written.add(h)
            if h in s.sp.get('w',{}): s.ob(b,f'forall a. {dv.t} <= a < {dv.t} + {c} -> w_{h} a','copy writes within bounds')
            if h in s.sp.get('r',{}): s.ob(b,f'forall a. {sv.t} <= a < {sv.t} + {c} -> r_{h} a','copy reads within bounds')
        if name!='memmove': s.ob(b,f'{dv.t} + {c} <= {sv.t} \\/ {sv.t} + {c} <= {dv.t} \\/ {c} = 0 \\/ {dv.t} = {sv.t}','copied ranges do not overlap')
        for h,ht in hs: s.st(b,f'h_{h} <- copy h_{h} {dv.t} {sv.t} {c}')
        return Val(dv.t,('ptr',ET),True,True)
    def rech(s,ET):
        if ET[0]=='rec':
            out=[]
            for f,t in s.tu.fields(ET[1]):
                if t[0] in('rec','arr'): raise Unsupported('copy of nested record')
                out.append((san(f'{ET[1]}_{f}'),t))
            return out
        return [(hname(ET),ET)]
    def ptrcastv(s,b,e,T):
        """pointer value of e, in units of T"""
        x=e
        while x['kind'] in('ParenExpr','ImplicitCastExpr','CStyleCastExpr') and x.get('castKind','NoOp') in('NoOp','BitCast'): x=x['inner'][0]
        X=s.tu.ctype(x['type'])
        if X[0]=='ptr' and s.unit(X[1])==s.unit(T[1]): return s.exact(b,s.expr(b,x))
        if X[0]=='arr' and s.unit(X)==s.unit(T[1]):
            l=s.lval(b,x); return Val(l[1],T)
        if X[0]=='arr': raise Unsupported('memcpy of array')
        return s.ptrcast(b,x,T)
    def memset(s,b,args):
        d,v,n=args
        x=d
        while x['kind'] in('ParenExpr','ImplicitCastExpr','CStyleCastExpr') and x.get('castKind','NoOp') in('NoOp','BitCast'): x=x['inner'][0]
        X=s.tu.ctype(x['type']); ET=inner(X[1]) if X[0]=='ptr' else inner(X)
        if ET[0]=='void': ET=('int',8,1,'i8')
        z=s.expr(b,v)
        if z.t!='0': raise Unsupported('memset with nonzero value')
        dv=s.fix(b,s.ptrcastv(b,d,('ptr',ET))); u=s.unit(ET); c=s.divexact(b,n,u) if u>1 else s.exact(b,s.expr(b,n)).t
        c=c if re.fullmatch(r'\w+',c) else s.let(b,c)
        for h,ht in s.rech(ET):
            s.uheap(h,ht); s.written.add(h)
            if h in s.sp.get('w',{}): s.ob(b,f'forall a. {dv.t} <= a < {dv.t} + {c} -> w_{h} a','memset writes within bounds')
            zero={'int':'0','real':'0.0'}.get(s.wt(ht),f'(k_{s.wt(ht)} 0)')
            s.st(b,f'h_{h} <- fill h_{h} {dv.t} {c} {zero}')
        return Val(dv.t,X if X[0]=='ptr' else ('ptr',ET),True,True)
    def inline(s,b,name,args,T):
        d=s.tu.fn[name]; ps=[x for x in d.get('inner',[]) if x['kind']=='ParmVarDecl']; body=[x for x in d['inner'] if x['kind']=='CompoundStmt'][0]
        vals=[]
        for a in args: 
            if s.tu.ctype(a['type'])[0]=='rec': vals.append([Val(s.let(b,v.t),v.T,True,True) for v in s.recval(b,a)]); continue
            v=s.exact(b,s.expr(b,a)); vals.append(Val(s.let(b,v.t),v.T,True,True))
        if len(ps)!=len(args): raise Unsupported('variadic call')
        mut=s.assigned(body); saved=s.scope; s.scope=dict(s.scope); bb=[]
        for p,v in zip(ps,vals):
            nm=s.newname(p.get('name','arg')); P=s.tu.ctype(p['type'])
            if P[0]=='arr': P=('ptr',P[1])
            if P[0]=='rec':
                s.env[p['id']]=('lrec',nm,P)
                for (q,_),w in zip(s.flat(nm,P),v):
                    if p['id'] in mut: s.muts.add(q)
                    s.let(bb,w.t,p['id'] in mut,q)
                continue
            s.env[p['id']]=('var',nm,P)
            if p['id'] in mut: s.muts.add(nm); s.let(bb,v.t,True,nm)
            else: s.let(bb,v.t,False,nm)
        s.inlined.add(name); s.inl.append(name); s.stack.append(('fn',f'Ret_{s.tmp()}',T)); 
        exc=s.stack[-1][1]; rets=s.count_returns(body)
        tail=body.get('inner',[])[-1] if body.get('inner') else None
        if rets==0 or (rets==1 and tail is not None and tail['kind']=='ReturnStmt'):
            for x in body.get('inner',[])[:None if rets==0 else -1]: s.stmt(bb,x)
            r='()'
            if rets and tail.get('inner'): r=s.rtuple(bb,tail['inner'][0]) if T[0]=='rec' else s.exact(bb,s.conv(bb,s.expr(bb,tail['inner'][0]),T)).t
            t=f'begin {s.render(bb,r)} end'
        else:
            for x in body.get('inner',[]): s.stmt(bb,x)
            ty='unit' if T[0]=='void' else s.wt(T)
            fall='()' if T[0]=='void' else ('(absurd)')
            if T[0]=='void': t=f'begin exception {exc} in try {s.render(bb,fall)} with {exc} -> () end end'
            else: t=f'begin exception {exc} {ty} in try {s.render(bb,fall if not s.ends(body) else "absurd")} with {exc} v_ -> v_ end end'
        s.stack.pop(); s.inl.pop(); s.scope=saved
        if T[0]=='void': s.st(b,t); return Val('()',T)
        return Val(s.let(b,t),T,True,True)
    def ends(s,body): return True
    def rtuple(s,b,e): return '('+', '.join(v.t for v in s.recval(b,e))+')'
    def count_returns(s,e):
        n=1 if e.get('kind')=='ReturnStmt' else 0
        return n+sum(s.count_returns(x) for x in e.get('inner',[]) if x)
    # --- statements
    def assigned(s,e,acc=None):
        acc=set() if acc is None else acc; k=e.get('kind')
        if (k=='BinaryOperator' and e['opcode']=='=') or k=='CompoundAssignOperator' or (k=='UnaryOperator' and e['opcode'] in('++','--')) or (k=='UnaryOperator' and e['opcode']=='&' and 'const' not in e['inner'][0].get('type',{}).get('qualType','').split('[')[0] and e['inner'][0].get('type',{}).get('qualType') in('uint','unsigned int')):
            x=e['inner'][0]
            while x['kind'] in('ParenExpr','MemberExpr','ArraySubscriptExpr','ImplicitCastExpr') and not (x['kind']=='MemberExpr' and x.get('isArrow')): x=x['inner'][0]
            if x['kind']=='DeclRefExpr': acc.add(x['referencedDecl']['id'])
        for x in e.get('inner',[]): 
            if x: s.assigned(x,acc)
        return acc
    def newname(s,n):
        n=san(n); m=n; i=2
        while m in s.used: m=f'{n}__{i}'; i+=1
        s.used.add(m); return m
    def decl(s,b,d):
        if d['kind']!='VarDecl': return
        if d.get('storageClass')=='static': 
            T=s.tu.ctype(d['type']); nm=d['name']
            s.u.globs[nm]=T
            if T[0]=='arr': s.env[d['id']]=('arr','g_'+nm,T)
            else: h='glob_'+nm; s.uheap(h,T); s.env[d['id']]=('heap',h,'0',T)
            return
        T=s.tu.ctype(d['type']); nm=s.newname(d['name']); init=[x for x in d.get('inner',[]) if x['kind'] not in('FullComment',)]
        init=init[0] if init and d.get('init') else None
        if T[0]=='arr':
            if nm in s.sp.get('local',{}):
                s.st(b,'()'); s.let(b,f'any int ensures {{ {s.txt(s.sp["local"][nm].replace("$","result"))} }}',False,nm); s.env[d['id']]=('heaparr',nm,T)
                if init: raise Unsupported('initialised local array in memory')
                return
            if T[1][0]=='rec' and T[1][1] not in s.tu.rec: s.env[d['id']]=('opaque',nm,T); return
            if T[1][0]=='rec' and s.sp.get('recmaps'):
                for f,t in s.tu.fields(T[1][1]):
                    if t[0] in('rec','arr'): raise Unsupported('nested record in a local array')
                    s.muts.add(f'{nm}_{f}'); s.let(b,f'any map int {s.wt(t)}',True,f'{nm}_{f}')
                s.env[d['id']]=('mrecarr',nm,T); return
            if T[1][0]=='rec':
                for i in range(T[2]):
                    for f,t in s.tu.fields(T[1][1]): s.muts.add(f'{nm}_{i}_{f}'); s.let(b,s.anyv(t),True,f'{nm}_{i}_{f}')
                s.env[d['id']]=('lrecarr',nm,T); return
            if T[1][0]=='arr': raise Unsupported('local two-dimensional array')
            s.muts.add(nm); s.let(b,f'any map int {s.wt(T[1])}' if init is None else f'any map int {s.wt(T[1])}',True,nm); s.env[d['id']]=('lmap',nm,T)
            if init:
                if init['kind']!='InitListExpr': raise Unsupported('array initialiser')
                for i,x in enumerate(init.get('inner',[])): v=s.exact(b,s.expr(b,x)); s.st(b,f'{nm} <- set {nm} {i} {par(v.t)}')
                if init.get('array_filler'): 
                    raise Unsupported('partial array initialiser')
            return
        if T[0]=='rec' and nm in s.sp.get('local',{}):
            if init is not None: raise Unsupported('initialised local record in memory')
            s.st(b,'()'); s.let(b,f'any int ensures {{ {s.txt(s.sp["local"][nm].replace("$","result"))} }}',False,nm); s.env[d['id']]=('rec',nm,T)
            return
        if T[0]=='rec':
            vals=None
            if init is not None and init['kind']!='InitListExpr': vals=s.recval(b,init)
            def mk(pre,R):
                for f,t in s.tu.fields(R):
                    if t[0]=='rec': mk(f'{pre}_{f}',t[1])
                    elif t[0]=='arr': s.muts.add(f'{pre}_{f}'); s.let(b,f'any map int {s.wt(t[1])}',True,f'{pre}_{f}')
                    else: s.muts.add(f'{pre}_{f}'); s.let(b,s.anyv(t),True,f'{pre}_{f}')
            mk(nm,T[1]); s.env[d['id']]=('lrec',nm,T)
            if vals is not None:
                for q,v in zip(s.recparts(b,('lrec',nm,T)),vals): s.wr(b,q,v)
            return
        if nm in s.sp.get('local',{}) and T[0] in('int','ptr','fl'):
            s.st(b,'()'); s.let(b,f'any int ensures {{ {s.txt(s.sp["local"][nm].replace("$","result"))} }}',False,nm); s.env[d['id']]=('heap',hname(T),nm,T)
            if init is not None: s.wr(b,s.env[d['id']],s.expr(b,init))
            return
        if init is not None:
            if init['kind']=='InitListExpr': init=init['inner'][0]
            v=s.exact(b,s.conv(b,s.expr(b,init),T) if T[0]=='int' else s.expr(b,init),'value in range of the assigned type'); t=v.t
        else: t=s.anyv(T)
        s.env[d['id']]=('var',nm,T)
        if d['id'] in s.mutids: s.muts.add(nm); s.let(b,t,True,nm)
        else: s.let(b,t,False,nm)
        s.vars[nm]=T
        for x in s.sp.get('ghost',{}).get(('decl',nm),[]): b.append(('let',s.txt(x)+' in') if x.startswith('let ') else ('st',s.txt(x)))
    def anyv(s,T):
        if T[0]=='int' and not s.isabs(T): lo,hi=rng(T); return f'any int ensures {{ {lo} <= result <= {hi} }}'
        return f'any {s.wt(T)}'
    def stmt(s,b,e):
        k=e.get('kind')
        if k in(None,'NullStmt'): return
        if k=='CompoundStmt':
            bb=[]
            for x in e.get('inner',[]): s.stmt(bb,x)
            if bb: s.st(b,f'begin {s.render(bb)} end')
            return
        if k=='DeclStmt':
            for d in e['inner']: s.decl(b,d)
            return
        if k=='IfStmt':
            i=e['inner']; c=s.cond(b,i[0]); bx=[]; by=[]; 
            cv=constcond(c)
            if cv is None or cv: s.stmt(bx,i[1])
            if len(i)>2 and not cv: s.stmt(by,i[2])
            if cv is True: b+= [('st',f'begin {s.render(bx)} end')] if bx else []; return
            if cv is False: b+= [('st',f'begin {s.render(by)} end')] if by else []; return
            s.st(b,f'if {c} then begin {s.render(bx)} end else begin {s.render(by)} end'); return
        if k=='ReturnStmt':
            T=s.retT; ctx=[x for x in s.stack if x[0]=='fn']
            if ctx: T=ctx[-1][2]
            r='()'
            if e.get('inner') and T[0]=='rec': r=s.let(b,s.rtuple(b,e['inner'][0]))
            elif e.get('inner') and T[0]!='void': r=s.exact(b,s.conv(b,s.expr(b,e['inner'][0]),T) if T[0]=='int' else s.expr(b,e['inner'][0]),'result in range').t
            elif e.get('inner'): s.discard(b,e['inner'][0])
            if ctx: s.st(b,f'raise {ctx[-1][1]}'+('' if T[0]=='void' else f' {par(r)}'))
            else:
                for g in s.sp.get('ghost',{}).get('return',[]): s.st(b,s.txt(g))
                s.st(b,f'return {r}' if r!='()' else 'return ()')
            return
        if k=='BreakStmt':
            c=[x for x in s.stack if x[0] in('while','block','fn')][-1]
            if c[0]=='fn': raise Unsupported('break')
            c[2]['break']=True
            s.st(b,'break' if c[0]=='while' else f'raise {c[1]}'); return
        if k=='ContinueStmt':
            c=[x for x in s.stack if x[0]=='while' or (x[0]=='block' and x[2].get('loop'))][-1]
            if c[0]=='block': raise Unsupported('continue in do-while(0)')
            c[2]['cont']=True; s.st(b,f'raise {c[1]}'); return
        if k=='WhileStmt': i=e['inner']; return s.loop(b,None,i[0],None,i[1],False)
        if k=='DoStmt': i=e['inner']; return s.loop(b,None,i[1],None,i[0],True)
        if k=='ForStmt':
            init,_,c,inc,body=e['inner']; bb=[]
            if init:
                if init['kind']=='DeclStmt': s.stmt(bb,init)
                else: s.discard(bb,init)
            s.loop(bb,None,c or None,inc or None,body,False); s.st(b,f'begin {s.render(bb)} end'); return
        if k=='SwitchStmt': return s.switch(b,e)
        if k=='GotoStmt':
            if e.get('targetLabelDeclId') not in s.gotos: raise Unsupported('goto that is not a forward jump to the end of the function')
            s.st(b,f'raise {s.gotos[e["targetLabelDeclId"]]}'); return
        if k in('CaseStmt','DefaultStmt','LabelStmt'): raise Unsupported(k)
        s.discard(b,e)
    def txt(s,t,where='body'):
        return s.u.txt(t,where,s)
    def loop(s,b,init,c,inc,body,dowhile):
        if dowhile and s.isfalse(c):  # do { } while(0)
            exc=f'Brk_{s.tmp()}'; ctx=('block',exc,{}); s.stack.append(ctx); bb=[]; s.stmt(bb,body); s.stack.pop()
            t=f'begin {s.render(bb)} end'
            if ctx[2].get('break'): t=f'begin exception {exc} in try {t} with {exc} -> () end end'
            s.st(b,t); return
        s.loopn+=1; k=s.loopn; sp=s.sp.get('loops',{}).get(k,{}); exc=f'Cont_{s.tmp()}'; ctx=('while',exc,{})
        s.usedloops.add(k); gh=s.sp.get('ghost',{})
        for g in gh.get(('before',k),[]): s.st(b,s.txt(g)) if not g.startswith('let ') else b.append(('let',s.txt(g)+' in'))
        muts_before=set(s.muts)
        asg=s.assigned({'inner':[x for x in (c,inc,body) if x]})
        s.stack.append(ctx); bb=[]
        for g in gh.get(('begin',k),[]): s.st(bb,s.txt(g)) if not g.startswith('let ') else bb.append(('let',s.txt(g)+' in'))
        if not dowhile and c is not None:
            cb=s.cond(bb,c)
            if constcond(cb) is not True: s.st(bb,f'if not {cb} then break')
        for g in gh.get(('enter',k),[]): s.st(bb,s.txt(g)) if not g.startswith('let ') else bb.append(('let',s.txt(g)+' in'))
        inn=[]; s.stmt(inn,body)
        s.ghostlines(inn,gh.get(('endbody',k),[]))
        if ctx[2].get('cont'): s.st(bb,f'begin exception {exc} in try {s.render(inn)} with {exc} -> () end end')
        else: bb+=inn if not inc else [('st',f'begin {s.render(inn)} end')] if inn else []
        # leaving with break inside try is not allowed to be confused: break passes through try unchanged
        if inc: s.discard(bb,inc)
        s.ghostlines(bb,gh.get(('end',k),[]))
        if dowhile:
            cb=s.cond(bb,c)
            if constcond(cb) is not True: s.st(bb,f'if not {cb} then break')
        s.stack.pop()
        inv=[]
        lab=f'loop {k}'
        for i,f in enumerate(sp.get('inv',[])): inv.append(f'invariant {{ [@expl:{lab} invariant {i+1}] {s.txt(f)} }}')
        for did in sorted(asg):
            v=s.env.get(did)
            if v and v[0]=='var' and v[2][0]=='int' and v[1] in muts_before and not s.isabs(v[2]) and not (s.sp.get('norange') and v[1] in s.sp['norange']):
                lo,hi=rng(v[2]); inv.append(f'invariant {{ [@expl:{lab} range of {v[1]}] {lo} <= {v[1]} <= {hi} }}')
        s.pending.append((k,lab))
        inv.append(f'@@FRAME{k}@@')
        var=f'variant {{ {s.txt(sp["var"])} }}' if sp.get('var') else ''
        if sp.get('diverges') : var=''
        s.st(b,'while true do\n'+'\n'.join(inv)+'\n'+var+'\n'+s.render(bb)+'\ndone')
        for g in gh.get(('after',k),[]): s.st(b,s.txt(g)) if not g.startswith('let ') else b.append(('let',s.txt(g)+' in'))
    def isfalse(s,c):
        x=c
        while x['kind'] in('ParenExpr','ImplicitCastExpr','ConstantExpr'): x=x['inner'][0]
        return x['kind']=='IntegerLiteral' and int(x['value'])==0
    def switch(s,b,e):
        c,body=e['inner'][-2:]
        if body['kind']!='CompoundStmt': raise Unsupported('switch body')
        T=s.tu.ctype(c['type']); v=s.exact(b,s.expr(b,c)); x=s.let(b,v.t)
        items=body.get('inner',[])
        def label(st):
            """peel case labels"""
            ls=[]
            while st['kind'] in('CaseStmt','DefaultStmt'):
                if st['kind']=='DefaultStmt': ls.append(None); st=st['inner'][0]
                else:
                    q=st['inner'][0]
                    while 'value' not in q:
                        if q.get('kind')=='DeclRefExpr': q={'value':str(s.tu.enum[q['referencedDecl']['name']])}; break
                        q=q['inner'][0]
                    ls.append(int(q['value'])); st=st['inner'][-1]
            return ls,st
        # Duff's device
        if len(items)>=1:
            ls,st=label(items[0])
            if st['kind']=='DoStmt' and ls and any(label(y)[0] for y in st['inner'][0].get('inner',[]) if y):
                if len(items)!=1: raise Unsupported('switch')
                dobody,cond=st['inner']; seq=[]; pos={l:0 for l in ls}
                for y in dobody.get('inner',[]):
                    l2,y2=label(y)
                    for l in l2: pos[l]=len(seq)
                    seq.append(y2)
                if None in pos: raise Unsupported('default in device')
                en=s.newname('entry_'); s.muts.add(en)
                t='99'
                for l in sorted(pos,key=lambda l:-l): t=f'(if {x} = {l} then {pos[l]} else {t})'
                s.let(b,t,True,en)
                s.loopn+=1; k=s.loopn; sp=s.sp.get('loops',{}).get(k,{}); s.usedloops.add(k); bb=[]
                gh=s.sp.get('ghost',{})
                before=set(s.muts); asg=s.assigned(st)
                ctx=('while',f'Cont_{s.tmp()}',{}); s.stack.append(ctx)
                for i,y in enumerate(seq):
                    inn=[]; s.stmt(inn,y); s.st(bb,f'if {en} <= {i} then begin {s.render(inn)} end')
                s.st(bb,f'{en} <- 0'); cb=s.cond(bb,cond); s.st(bb,f'if not {cb} then break')
                s.stack.pop(); inv=[f'invariant {{ [@expl:loop {k} invariant {i+1}] {s.txt(f)} }}' for i,f in enumerate(sp.get('inv',[]))]
                for did in sorted(asg):
                    w=s.env.get(did)
                    if w and w[0]=='var' and w[2][0]=='int' and w[1] in before: lo,hi=rng(w[2]); inv.append(f'invariant {{ [@expl:loop {k} range of {w[1]}] {lo} <= {w[1]} <= {hi} }}')
                inv.append(f'@@FRAME{k}@@')
                s.st(b,f'if {en} < 99 then begin while true do\n'+'\n'.join(inv)+(f'\nvariant {{ {s.txt(sp["var"])} }}' if sp.get('var') else '')+'\n'+s.render(bb)+'\ndone end'); return
        groups=[]; cur=None
        for y in items:
            ls,st=label(y)
            if ls: cur=[ls,[]]; groups.append(cur)
            if cur is None: raise Unsupported('switch')
            cur[1].append(st)
        out='()'; arms=[]; default=None
        for gi,(ls,sts) in enumerate(groups):
            last=sts[-1]; 
            if last['kind']=='BreakStmt': sts=sts[:-1]
            elif last['kind']=='ReturnStmt': pass
            elif gi==len(groups)-1: pass
            else: raise Unsupported('fall through')
            def hasbrk(z):
                if z.get('kind')=='BreakStmt': return True
                if z.get('kind') in('WhileStmt','DoStmt','ForStmt','SwitchStmt'): return False
                return any(hasbrk(q) for q in z.get('inner',[]) if q)
            if any(hasbrk(z) for z in sts): raise Unsupported('break inside a case')
            bb=[]; 
            for z in sts: s.stmt(bb,z)
            t=f'begin {s.render(bb)} end'
            if None in ls: default=t
            else: arms.append((' || '.join(f'{x} = {l}' for l in ls),t))
        r=''
        for c_,t in arms: r+=f'if {c_} then {t} else '
        s.st(b,r+(default or '()')); return
    # --- whole function
    def go(s):
        d=s.d; ps=[x for x in d.get('inner',[]) if x['kind']=='ParmVarDecl']; body=[x for x in d['inner'] if x['kind']=='CompoundStmt'][0]
        q=d['type']['qualType']; s.retT=s.tu.parse(s.rettype(q)); s.env={}; s.scope={}; s.muts=set(); s.vars={}; s.pending=[]; s.gotos={}; s.mutids=s.allassigned(body)
        params=[]; b=[]
        s.used|=set(['a','result'])
        for p in ps:
            P=s.tu.ctype(p['type'])
            if P[0]=='arr': P=('ptr',P[1])
            nm=s.newname(p.get('name','arg')); s.env[p['id']]=('var',nm,P)
            if P[0]=='rec':
                s.env[p['id']]=('lrec',nm,P)
                for q,t in s.flat(nm,P):
                    params.append((q,t))
                    if p['id'] in s.mutids: s.muts.add(q); b.append(('let',f'let ref {q} = {q} in'))
                continue
            params.append((nm,P)); 
            if p['id'] in s.mutids:
                s.muts.add(nm); b.append(('let',f'let ref {nm} = {nm} in'))
        s.params=params
        for x in s.sp.get('ghost',{}).get('entry',[]): b.append(('let',s.txt(x)+' in') if x.startswith('let ') else ('st',s.txt(x)))
        s.toplevel(b,body.get('inner',[]))
        for x in s.sp.get('ghost',{}).get('exit',[]): s.st(b,s.txt(x))
        for k in s.sp.get('loops',{}):
            if k not in s.usedloops: raise Attach(f'{s.name}: no loop {k}')
        if len(s.usedloops)!=len(s.sp.get('loops',{})): raise Attach(f'{s.name}: {len(s.usedloops)} loops, contract has {len(s.sp.get("loops",{}))}')
        s.body=s.render(b, '()' if s.retT[0]=='void' else 'absurd')
        if s.retT[0]!='void' and body.get('inner') and body['inner'][-1]['kind']!='ReturnStmt' and not s.sp.get('absurd'): pass
        return s
    def toplevel(s,b,items):
        """the statements of a function body; a label among them may be the target of forward jumps from the statements before it"""
        def jumps(x,id_):
            if not x: return False
            if x.get('kind')=='GotoStmt' and x.get('targetLabelDeclId')==id_: return True
            return any(jumps(y,id_) for y in x.get('inner',[]))
        for i,x in enumerate(items):
            if x.get('kind')!='LabelStmt': continue
            at=[j for j in range(i) if jumps(items[j],x['declId'])]
            for j in range(at[0] if at else i): s.stmt(b,items[j])
            if at:
                exc=f'Goto_{s.tmp()}'; s.gotos[x['declId']]=exc; bb=[]
                for y in items[at[0]:i]: s.stmt(bb,y)
                del s.gotos[x['declId']]
                cut=s.sp.get('cut')
                blk=f'begin exception {exc} in try {s.render(bb)} with {exc} -> () end end'
                s.st(b,blk if not cut else 'begin '+' '.join(f'ensures {{ [@expl:at the label] {c} }}' for c in cut)+f' {blk} end')
            return s.toplevel(b,x['inner']+items[i+1:])
        for x in items: s.stmt(b,x)
    def allassigned(s,body):
        # ids assigned anywhere, also within functions that may be inlined (their ids are distinct)
        acc=s.assigned(body); seen=set()
        def walk(e):
            if not e: return
            if e.get('kind')=='DeclRefExpr' and e['referencedDecl']['kind']=='FunctionDecl':
                n=e['referencedDecl']['name']
                if n in s.tu.fn and n not in seen: seen.add(n); s.assigned(s.tu.fn[n],acc); walk(s.tu.fn[n])
            for x in e.get('inner',[]): walk(x)
        walk(body); return acc
    def rettype(s,q):
        i=q.index('('); return q[:i].strip()
def constcond(c):
    if c in('true','(1 <> 0)'): return True
    if c in('false','(0 <> 0)'): return False
    m=re.fullmatch(r'\((-?\d+) (<=|>=|<>|<|>|=) (-?\d+)\)',c)
    if m:
        x,y=int(m.group(1)),int(m.group(3)); return {'<':x<y,'>':x>y,'<=':x<=y,'>=':x>=y,'=':x==y,'<>':x!=y}[m.group(2)]
    m=re.fullmatch(r'\(\(if (.*) then 1 else 0\) <> 0\)',c)
    return None
def cfold(r,op):
    m=re.fullmatch(r'\((\d+) ([-+*]) (\d+)\)',r.t)
    if m:
        x,y=int(m.group(1)),int(m.group(3)); z={'+':x+y,'-':x-y,'*':x*y}[op]
        lo,hi=rng(r.T)
        if lo<=z<=hi: return Val(str(z) if z>=0 else f'({z})',r.T,True)
    return r
def par(t):
    if re.fullmatch(r"[\w.']+",t) or (t[0]=='(' and closes(t)): return t
    return f'({t})'
def closes(t):
    n=0
    for i,c in enumerate(t):
        if c=='(': n+=1
        if c==')':
            n-=1
            if n==0: return i==len(t)-1
    return False
def add(a,b):
    if b=='0': return a
    return f'({a} + {par(b)})'
def mulc(t,c):
    if c==1: return t
    if re.fullmatch(r'\d+',t): return str(int(t)*c)
    return f'({c} * {par(t)})'
def rlit(x):
    if x==int(x) and x<1e18: return f'{int(x)}.0'
    r=repr(x)
    if 'e' in r or 'E' in r:
        m,e=r.lower().split('e')
        if '.' not in m: m+='.0'
        return f'{m}e{int(e)}'
    return r
PRELUDE='''
  use int.Int
  use int.EuclideanDivision as E
  use int.ComputerDivision as C
  use map.Map
  use bool.Bool
  function div (x y: int) : int = E.div x y
  function mod (x y: int) : int = E.mod x y
  val constant strlit : int
  val ediv (x y: int) : int requires { y > 0 } ensures { result = E.div x y }
  val emod (x y: int) : int requires { y > 0 } ensures { result = E.mod x y }
  val tdiv (x y: int) : int requires { y <> 0 } ensures { result = C.div x y }
  val tmod (x y: int) : int requires { y <> 0 } ensures { result = C.mod x y }
'''
class Unit:
    """one C source file with the contracts of its functions"""
    def __init__(s,tu,specs,prelude='',abstract=(),extern=None,realmode=False,bits=False,consts=None):
        s.tu=tu; s.specs=specs; s.prelude=prelude; s.abstract=set(abstract); s.extern=extern or {}; s.heapty={}; s.subs={}; s.globs={}; s.absops={}; s.consts={}; s.recps=set(); s.real=realmode; s.bits=bits; s.ownconsts=consts or {}
    def absop(s,n,args,res,r): s.absops[n]=(args,res,r)
    def consttab(s,g,T,fn):
        n='tab_'+g['name']
        if n in s.consts: return n
        init=[x for x in g['inner'] if x['kind']=='InitListExpr'][0]; vals=[]; b=[]
        for x in init['inner']:
            v=fn.expr(b,x); vals.append(v)
        if b: raise Unsupported('constant table')
        t=vals[-1].t
        for i in range(len(vals)-2,-1,-1): t=f'if i = {i} then {vals[i].t} else {t}'
        s.consts[n]=(fn.wt(T[1]),t,len(vals)); return n
    def params(s,name):
        if name in s.extern: return s.extern[name]['params']
        d=s.tu.fn[name]; out=[]
        for p in d.get('inner',[]):
            if p['kind']=='ParmVarDecl': T=s.tu.ctype(p['type']); out+=[n for n,_ in s.tu.flat(san(p.get('name','arg')) if T[0]=='rec' else p.get('name','arg'),T)]
        return out
    def inst(s,f,pn,ns,pre):
        """footprint formula with parameters replaced"""
        m=dict(zip(pn,ns)); 
        f=re.sub(r'@@(\w+)',lambda x:'h_'+x.group(1),f); f=re.sub(r'@(\w+)',lambda x:'h_'+x.group(1),f)
        return re.sub(r"(?<![\w.'@])[a-zA-Z_]\w*(?!\w)",lambda x:m.get(x.group(0),x.group(0)),f)
    def txt(s,t,where,fn):
        """@T: map now; @@T: map at entry"""
        for h in re.findall(r'@+(\w+)',t):
            if h!='expl' and fn is not None: fn.uheap(h)
        t=t.replace('[@expl:','\x01')
        if where=='body': t=re.sub(r'@@(\w+)',r'h0_\1',t)
        elif where=='ensures': t=re.sub(r'@@(\w+)',r'(old h_\1)',t)
        else: t=re.sub(r'@@(\w+)',r'h_\1',t)
        return re.sub(r'@(\w+)',r'h_\1',t).replace('\x01','[@expl:')
    def spheaps(s,sp):
        out=set(sp.get('w',{}))|set(sp.get('r',{}))
        for f in sp.get('requires',[])+sp.get('ensures',[])+list(sp.get('w',{}).values())+list(sp.get('r',{}).values()):
            out|=set(h for h in re.findall(r'(?<!\[)@+(\w+)',f))
        out.discard('expl'); return out
    def contract(s,name,sp,params,retT,fn,forval):
        L=[]
        for nm,P in params:
            if P[0]=='int' and not fn.isabs(P): lo,hi=rng(P); L.append(f'requires {{ {lo} <= {nm} <= {hi} }}')
        for i,f in enumerate(sp.get('requires',[])): L.append(f'requires {{ [@expl:precondition {i+1} of {name}] {s.txt(f,"requires",fn)} }}')
        if retT[0]=='int' and not fn.isabs(retT): lo,hi=rng(retT); L.append(f'ensures {{ [@expl:result in range] {lo} <= result <= {hi} }}')
        for i,f in enumerate(sp.get('ensures',[])): L.append(f'ensures {{ [@expl:postcondition {i+1} of {name}] {s.txt(f,"ensures",fn)} }}')
        for h,f in sp.get('w',{}).items():
            if f.strip()=='true': continue
            L.append(f'ensures {{ [@expl:{name} leaves the rest of {h} unchanged] forall a. not ({s.txt(f,"ensures",fn)}) -> h_{h}[a] = (old h_{h})[a] }}')
        if forval and sp.get('diverges'): L.append('diverges')
        if forval and sp.get('w'): L.append('writes { '+', '.join('h_'+h for h in sorted(sp['w']))+' }')
        return L
    def module(s,name):
        """WhyML text that proves function name against its contract"""
        sp=s.specs[name]; fn=Fn(s,name,sp).go()
        if not set(fn.written)<=set(sp.get('w',{})): raise Attach(f'{name}: writes {sorted(set(fn.written)-set(sp.get("w",{})))} outside its footprint')
        for h in s.spheaps(sp): fn.uheap(h)
        for h in re.findall(r'\bsub_(\w+)',repr(sp)+''.join(repr(s.specs.get(c) or s.extern[c]) for c in set(fn.callees))): s.subs.setdefault(h,None)
        vals=[]
        done=set()
        for c in fn.callees:
            if c in done: continue
            done.add(c); csp=s.specs.get(c) or s.extern[c]
            if c in s.extern: ps=[(san(p),s.tu.parse(t)) for p,t in zip(csp['params'],csp['types'])]; rt=s.tu.parse(csp.get('ret','void'))
            else:
                d=s.tu.fn[c]; ps=[(san(n),t) for p in d['inner'] if p['kind']=='ParmVarDecl' for n,t in s.tu.flat(san(p.get('name','arg')),s.tu.ctype(p['type']))]; rt=s.tu.parse(fn.rettype(d['type']['qualType']))
            for h in s.spheaps(csp): fn.uheap(h)
            sig=' '.join(f'({p}: {fn.wt(("ptr",t[1]) if t[0]=="arr" else t)})' for p,t in ps) or '()'
            sig+=' '+csp.get('ghostparams','')
            vals.append(f'  val f_{c} {sig} : {"unit" if rt[0]=="void" else fn.wt(rt)}\n    '+'\n    '.join(s.contract(c,csp,[(p,('ptr',t[1]) if t[0]=='arr' else t) for p,t in ps],rt,fn,True)))
        # frame invariants
        def frame(m):
            L=[]
            for h in sorted(fn.written):
                if sp['w'][h].strip()=='true': continue
                L.append(f'invariant {{ [@expl:loop {m.group(1)} leaves the rest of {h} unchanged] forall a. not (w_{h} a) -> h_{h}[a] = h0_{h}[a] }}')
            return '\n'.join(L)
        body=re.sub(r'@@FRAME(\d+)@@',frame,fn.body)
        heaps=sorted(fn.heaps)
        L=['module M',s.pre(fn)]
        L+=[f'  val ref h_{h} : map int {s.heapty[h]}' for h in heaps]
        L+=[s.txt(p,'requires',None) for p in [sp.get('prelude','')] if p]
        L+=vals
        sig=' '.join(f'({p}: {fn.wt(P)})' for p,P in fn.params) or '()'
        sig+=' '+sp.get('ghostparams','')
        C=s.contract(name,sp,fn.params,fn.retT,fn,False)
        pre=''.join(f'let ghost h0_{h} = h_{h} in\n' for h in heaps)
        # footprint predicates over the entry state
        hp=' '.join(f'(hh_{h}: map int {s.heapty[h]})' for h in heaps); pp=' '.join(f'({p}: {fn.wt(P)})' for p,P in fn.params)
        av=' '.join(f'{p}_0' for p,P in fn.params)+' '+' '.join(f'h0_{h}' for h in heaps)
        gp=sp.get('ghostparams',''); gn=' '.join(re.findall(r'\(ghost (\w+):',gp)); gp=gp.replace('ghost ','')
        for kind in('w','r'):
            for h,f in sp.get(kind,{}).items():
                f2=re.sub(r'@@?(\w+)',r'hh_\1',f)
                if kind=='r' and h in sp.get('w',{}): f2=f'({f2}) \\/ wr_{h} {" ".join(p for p,_ in fn.params)} {" ".join("hh_"+x for x in heaps)} {gn} a'
                L.append(f'  predicate {"wr" if kind=="w" else "rd"}_{h} {pp} {hp} {gp} (a: int) = {f2}')
        def ex(m):
            return f'{"wr" if m.group(1)=="w" else "rd"}_{m.group(2)} {av} {gn} '
        body=re.sub(r"(?<![\w])(w|r)_(%s) "%'|'.join(map(re.escape,sorted(set(sp.get('w',{}))|set(sp.get('r',{})),key=lambda x:-len(x))) or ['$^']),ex,body)
        defs=''.join(f'let ghost {p}_0 = {p} in\n' for p,P in fn.params)
        L.append(f'  let f_{name} {sig} : {"unit" if fn.retT[0]=="void" else fn.wt(fn.retT)}\n    '+'\n    '.join(C)+(('\n    diverges') if sp.get('diverges') else '')+f'\n  = {pre}{defs}{body}')
        L.append('end')
        s.fnobj=fn
        return '\n'.join(L)+'\n'
    def pre(s,fn):
        L=[PRELUDE]
        for t in sorted(s.abstract): L.append(f'  type {t}\n  val function k_{t} (n: int) : {t}')
        for n,(args,res,r) in sorted(s.absops.items()):
            sig=' '.join(f'(x{i}: {a})' for i,a in enumerate(args))
            if args: L.append(f'  val function {n} {sig} : {res}'+(f'\n    ensures {{ {r[0]} <= result <= {r[1]} }}' if r else ''))
            else: L.append(f'  val constant {n} : {res}')
        L.append('''  val get (h: map int 'a) (a: int) : 'a ensures { result = h[a] }
  val set (h: map int 'a) (a: int) (v: 'a) : map int 'a ensures { result = h[a <- v] }
  val copy (h: map int 'a) (d s n: int) : map int 'a requires { n >= 0 }
    ensures { forall a. d <= a < d + n -> result[a] = h[s + (a - d)] }
    ensures { forall a. not (d <= a < d + n) -> result[a] = h[a] }
  val fill (h: map int 'a) (d n: int) (v: 'a) : map int 'a requires { n >= 0 }
    ensures { forall a. d <= a < d + n -> result[a] = v }
    ensures { forall a. not (d <= a < d + n) -> result[a] = h[a] }
  use int.Power as P
  val pow2 (n: int) : int requires { 0 <= n } ensures { result = P.power 2 n /\\ result > 0 }''')
        if s.real: L.append('''  use real.RealInfix
  use real.Abs as RA
  use real.FromInt as RF
  val radd (x y: real) : real ensures { result = x +. y }
  val rsub (x y: real) : real ensures { result = x -. y }
''' + ('''  function mulr (x y: real) : real
  axiom mulr_comm: forall x y. mulr x y = mulr y x
  val rmul (x y: real) : real ensures { result = mulr x y }
''' if s.real=='op' else '''  val rmul (x y: real) : real ensures { result = x *. y }
''') + '''  val rdiv (x y: real) : real '''+('''ensures { result = x /. y }''' if s.real=='total' else '''requires { y <> 0.0 } ensures { result = x /. y }''')+'''
  val rneg (x: real) : real ensures { result = -. x }
  val rabs (x: real) : real ensures { result = RA.abs x }
  val rlt (x y: real) : bool ensures { result <-> x <. y }
  val rle (x y: real) : bool ensures { result <-> x <=. y }
  val req (x y: real) : bool ensures { result <-> x = y }
  use real.Truncate as RT
  val rofint (n: int) : real ensures { result = RF.from_int n }
  val rtrunc (x: real) : int ensures { result = RT.truncate x }
  function tofi (n: int) : real = RF.from_int n''')
        if getattr(s,'bytes4',False): L.append('''  function c_join int int int int : int
  function c_byte int int : int
  axiom c_join_byte: forall x. 0<=x<=4294967295 -> c_join (c_byte 0 x) (c_byte 1 x) (c_byte 2 x) (c_byte 3 x) = x
  axiom c_join_rng: forall p q r s. 0 <= c_join p q r s <= 4294967295
  function c_get4 (h: map int int) (a: int) : int = c_join h[a] h[a+1] h[a+2] h[a+3]
  val c_ld4 (h: map int int) (a: int) : int ensures { result = c_get4 h a /\\ 0 <= result <= 4294967295 }
  val c_st4 (h: map int int) (a x: int) : map int int requires { 0 <= x <= 4294967295 }
    ensures { forall k. 0<=k<4 -> result[a+k] = c_byte k x } ensures { forall q. not (a<=q<a+4) -> result[q]=h[q] }''')
        if s.bits: L.append('''  function band int int : int
  function bor int int : int
  function bxor int int : int
  val c_band (x y: int) : int ensures { result = band x y /\\ (0 <= x /\\ 0 <= y -> 0 <= result /\\ result <= x /\\ result <= y) }
  predicate bwid (x y r: int) = (x <= 255 /\\ y <= 255 -> r <= 255) /\\ (x <= 65535 /\\ y <= 65535 -> r <= 65535) /\\ (x <= 4294967295 /\\ y <= 4294967295 -> r <= 4294967295) /\\ (x <= 18446744073709551615 /\\ y <= 18446744073709551615 -> r <= 18446744073709551615)
  val c_bor (x y: int) : int ensures { result = bor x y /\\ (0 <= x /\\ 0 <= y -> x <= result /\\ y <= result /\\ bwid x y result) }
  val c_bxor (x y: int) : int ensures { result = bxor x y /\\ (0 <= x /\\ 0 <= y -> 0 <= result /\\ bwid x y result) }''')
        for h in sorted(fn.heaps):
            T=[t for t in INTS.values() if t[2]==h]
            if T and s.heapty[h]=='int': lo,hi=rng(('int',)+T[0]); L.append(f'  val ld_{h} (h: map int int) (a: int) : int ensures {{ result = h[a] /\\ {lo} <= result <= {hi} }}')
            elif s.heapty[h]=='int': L.append(f'  val ld_{h} (h: map int int) (a: int) : int ensures {{ result = h[a] {s.fieldrng(h)} }}')
        for g in sorted(s.globs):
            if s.globs[g][0] in('arr','rec'): L.append(f'  val constant g_{g} : int')
        for h in sorted(x[0] for x in s.recps if isinstance(x,tuple)): L.append(f'  val constant {h} : int')
        for n,(ty,t,k) in sorted(s.consts.items()): L.append(f'  let function {n} (i: int) : {ty} requires {{ 0 <= i < {k} }} = {t}')
        for h in sorted(x for x in s.recps if isinstance(x,str)): L.append(f'  val function {h} (b: int) : int')
        for h in sorted(s.subs): L.append(f'  val function sub_{h} (p: int) : int')
        if s.prelude: L.append(s.txt(s.prelude,'requires',None))
        return '\n'.join(L)
    def fieldrng(s,h):
        for rn in s.tu.rec:
            for f,t in (s.tu.rec[rn] or []):
                if f and san(f'{rn}_{f}')==h:
                    T=s.tu.ctype(t)
                    if T[0]=='int': lo,hi=rng(T); return f'/\\ {lo} <= result <= {hi}'
        return ''
