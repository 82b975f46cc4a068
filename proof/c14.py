"""contracts of mem.h (C14).  Blocks are tracked by an ownership map on byte addresses: own[a] is the base address of the
live block that byte a belongs to, 0 for none."""
import os
TUF=os.path.dirname(os.path.abspath(__file__))+"/tu/t_mem.c"
UL='18446744073709551615'
BLK=lambda p,n: f'forall k. {p}<=k<{p}+{n} -> @own[k]={p}'
KEEP=lambda ex: f'forall k. @@own[k]<>0 {ex} -> @own[k]=@@own[k] /\\ @i8[k]=@@i8[k] /\\ @@own[k]<>result'
FRESH='result<>0 -> forall k. @@own[k]<>0 -> @@own[k]<>result'
EXT={
 'malloc':dict(params=['size'],types=['unsigned long'],ret='void *',w={'own':'true','i8':'true'},why='malloc: returns null or a fresh block of at least the requested size, leaves live blocks alone',
   ensures=['0<=result','result<>0 -> ('+BLK('result','size')+')',KEEP('')]),
 'calloc':dict(params=['n','size'],types=['unsigned long','unsigned long'],ret='void *',w={'own':'true','i8':'true'},why='calloc: as malloc for n*size bytes, all zero, null when the product does not fit',
   ensures=['0<=result','result<>0 -> ('+BLK('result','n*size')+')','result<>0 -> forall k. result<=k<result+n*size -> @i8[k]=0',KEEP('')]),
 'realloc':dict(params=['ptr','size'],types=['void *','unsigned long'],ret='void *',w={'own':'true','i8':'true'},why='realloc: returns null, or a block of at least the requested size with the old contents up to the smaller size; leaves other live blocks alone',
   requires=['forall k. @own[k]=ptr -> @own[ptr]=ptr \\/ ptr=0'],
   ensures=['0<=result','result<>0 -> ('+BLK('result','size')+')','result<>0 -> forall k. result<=k<result+size -> @@own[ptr+(k-result)]=ptr -> ptr<>0 -> @i8[k]=@@i8[ptr+(k-result)]',KEEP('/\\ @@own[k]<>ptr')]),
 'gslib_fail':dict(params=['status'],types=['int'],ret='void',take=[0],why='fail: prints and ends the program (declared noreturn)',ensures=['false']),
}
INV='0<=@array_max[va] /\\ 0<=@array_n[va]'
OWN=lambda c: f'(forall k. {c}array_ptr[va]<=k<{c}array_ptr[va]+{c}array_max[va]*size -> {c}own[k]={c}array_ptr[va])'
def A(at):  # array well formed at state prefix
    return f'({at}array_max[va]*size>0 -> {at}array_ptr[va]<>0) /\\ {OWN(at)}'
def keepold(n): return f'forall k. @array_ptr[va]<=k<@array_ptr[va]+{n} -> @i8[k]=@@i8[@@array_ptr[va]+(k-@array_ptr[va])]'
WF=['1<=size','0<=@array_ptr[va]','@array_ptr[va]=0 -> @array_max[va]=0',A('@'),'forall k. @own[k]=@array_ptr[va] -> @own[@array_ptr[va]]=@array_ptr[va] \\/ @array_ptr[va]=0']
W={'own':'true','i8':'true','array_ptr':'a=va','array_max':'a=va'}
OTHER='forall k. @@own[k]<>0 /\\ @@own[k]<>@@array_ptr[va] -> @own[k]=@@own[k] /\\ @i8[k]=@@i8[k] /\\ @@own[k]<>@array_ptr[va]'
SPEC={
 'smalloc':dict(w={'own':'true','i8':'true'},ensures=['size>0 -> result<>0','0<=result','result<>0 -> ('+BLK('result','size')+')',KEEP('')]),
 'scalloc':dict(w={'own':'true','i8':'true'},requires=['nmemb*size<=9223372036854775807'],ensures=['nmemb*size>0 -> result<>0','0<=result','result<>0 -> ('+BLK('result','nmemb*size')+')','result<>0 -> forall k. result<=k<result+nmemb*size -> @i8[k]=0',KEEP('')]),
 'srealloc':dict(w={'own':'true','i8':'true'},requires=EXT['realloc']['requires'],ensures=['size>0 -> result<>0','0<=result','result<>0 -> ('+BLK('result','size')+')','result<>0 -> forall k. result<=k<result+size -> @@own[ptr+(k-result)]=ptr -> ptr<>0 -> @i8[k]=@@i8[ptr+(k-result)]',KEEP('/\\ @@own[k]<>ptr')]),
 'array_init_':dict(w=dict(W,array_n='a=va'),requires=['max*size<='+UL,'1<=size'],ensures=['@array_n[va]=0','@array_max[va]=max','0<=@array_ptr[va]','max>0 -> @array_ptr[va]<>0','max>0 -> ('+OWN('@')+')',KEEP('').replace('result','@array_ptr[va]')]),
 'array_resize_':dict(w=W,requires=['max*size<='+UL]+WF,ensures=['@array_max[va]=max','max>0 -> @array_ptr[va]<>0','max>0 -> '+OWN('@'),'max>0 -> '+keepold('max*size').replace('max*size ->','max*size -> k-@array_ptr[va]<@@array_max[va]*size ->'),OTHER,'0<=@array_ptr[va]']),
 'array_reserve_':dict(w=W,requires=WF+['(min+@array_max[va]+div @array_max[va] 2+1)*size<='+UL,'0<=@array_max[va]','min+@array_max[va]+div @array_max[va] 2+1<='+UL],
   ensures=['result=@array_ptr[va]','@array_max[va]>=min','@array_max[va]>=@@array_max[va]',A('@'),keepold('@@array_max[va]*size'),OTHER,
            '@@array_max[va]>=min -> @array_ptr[va]=@@array_ptr[va] /\\ @array_max[va]=@@array_max[va]',
'0<=@array_ptr[va]']),
 'array_cat_':dict(w={'own':'true','i8':'true','array_ptr':'a=d','array_max':'a=d','array_n':'a=d'},memtype='char',ghost={('aftercall','array_reserve_',1):['assert { forall k. @array_ptr[d]<=k<@array_ptr[d]+@array_max[d]*size -> @own[k]=@array_ptr[d] }','assert { forall k. s<=k<s+n*size -> @@own[k]<>0 /\\ @@own[k]<>@@array_ptr[d] }','assert { forall k. s<=k<s+n*size -> @own[k]<>@array_ptr[d] }','assert { (@array_n[d]+n)*size<=@array_max[d]*size }','assert { (@array_n[d]+n)*size=@array_n[d]*size+n*size }','let ghost p_ = @array_ptr[d]+@array_n[d]*size','let ghost m_ = n*size','assert { p_<=s<p_+m_ -> @own[s]<>@array_ptr[d] }','assert { p_<=s<p_+m_ -> @own[s]=@array_ptr[d] }','assert { s<=p_<s+m_ -> @own[p_]<>@array_ptr[d] }','assert { s<=p_<s+m_ -> @own[p_]=@array_ptr[d] }','assert { p_+m_<=s \\/ s+m_<=p_ \\/ m_=0 }']},
   requires=[x.replace('[va]','[d]') for x in WF]+['(@array_n[d]+n+@array_max[d]+div @array_max[d] 2+1)*size<='+UL,'@array_n[d]+n+@array_max[d]+div @array_max[d] 2+1<='+UL,'0<=@array_n[d]<=@array_max[d]','forall k. s<=k<s+n*size -> @own[k]<>0 /\\ @own[k]<>@array_ptr[d]'],
   ensures=['@array_n[d]=@@array_n[d]+n','@array_max[d]>=@array_n[d]','forall k. @array_ptr[d]<=k<@array_ptr[d]+@@array_n[d]*size -> @i8[k]=@@i8[@@array_ptr[d]+(k-@array_ptr[d])]',
            'forall k. @array_ptr[d]+@@array_n[d]*size<=k<@array_ptr[d]+@array_n[d]*size -> @i8[k]=@@i8[s+(k-(@array_ptr[d]+@@array_n[d]*size))]',OTHER.replace('[va]','[d]')]),
 'align_as_':dict(requires=['va>0','n+va-1<='+UL],ensures=['mod result va = 0','n<=result<n+va']),
}
EXF={'gslib_vdiagnostic':dict(params=[],types=[],ret='void',take=[],why='vdiagnostic: prints (its text is not modelled)'),'exit':dict(params=['status'],types=['int'],ret='void',why='exit: no assumption is made about it'),
 '__builtin_va_start':dict(params=[],types=[],ret='void',take=[],why='va_start/va_end: no effect on modelled memory'),'__builtin_va_end':dict(params=[],types=[],ret='void',take=[],why='va_start/va_end: no effect on modelled memory')}
FAIL={'gslib_vfail':dict(ensures=['false'],diverges=True,noreturn=True),'gslib_die':dict(ensures=['false'],diverges=True,noreturn=True),'gslib_fail':dict(ensures=['false'],diverges=True,noreturn=True)}
FAIL['gslib_die']['loops']={1:dict(diverges=True)}
def units():
    return [dict(file=TUF,src='src/mem.h',specs=SPEC,extern=EXT,heapty={'own':'int'}),dict(file='src/fail.c',specs=FAIL,extern=EXF)]
