"""contracts of sarray_permute_ (C10): the records end up in the order the permutation names, bytes intact, and the
permutation itself is left as it was"""
UL='18446744073709551615'
PRE='''
  predicate blk (h: map int int) (b: int) (g: map int int) (c s: int) = forall x. b<=x<b+s -> h[x]=g[c+(x-b)]
  function at_ (b s k: int) : int
  axiom at_def: forall b s k. at_ b s k = b + k*s
  let ghost sepl (b s n: int) requires { 0 < s } ensures { forall k l. 0<=k<n -> 0<=l<n -> k<>l -> at_ b s k + s <= at_ b s l \\/ at_ b s l + s <= at_ b s k }
     ensures { forall k. 0<=k<n -> b <= at_ b s k /\\ at_ b s k + s <= b+n*s }
   = assert { forall k l. k<l -> k*s+s<=l*s by (l-k-1)*s>=0 };
     assert { forall k l. k<l -> at_ b s k + s <= at_ b s l };
     assert { forall k. 0<=k -> 0<=k*s }
  function cnt (h: map int int) (lo hi: int) : int
  axiom cnt_nil: forall h lo hi. hi <= lo -> cnt h lo hi = 0
  axiom cnt_snoc: forall h lo hi. lo < hi -> cnt h lo hi = cnt h lo (hi-1) + (if h[hi-1] >= 0 then 1 else 0)
  let rec ghost cnt_pos (h: map int int) (lo hi: int) ensures { cnt h lo hi >= 0 } variant { hi-lo } = if lo < hi then cnt_pos h lo (hi-1)
  let rec ghost cnt_same (h g: map int int) (lo hi: int) requires { forall k. lo<=k<hi -> h[k]=g[k] } ensures { cnt h lo hi = cnt g lo hi } variant { hi-lo }
    = if lo < hi then cnt_same h g lo (hi-1)
  let rec ghost cnt_mark (h g: map int int) (lo hi x: int) requires { lo<=x<hi /\\ h[x]>=0 /\\ g[x]<0 } requires { forall k. lo<=k<hi -> k<>x -> h[k]=g[k] } ensures { cnt g lo hi = cnt h lo hi - 1 } variant { hi-lo }
    = if x < hi-1 then cnt_mark h g lo (hi-1) x else cnt_same h g lo (hi-1)
'''
P='@@i32[perm+%s]'
AT='at_ vA size '

Q=lambda lo,hi='fperm+n': f'forall q. {lo}<=q<{hi} -> '
B='(q-fperm)'
blk=lambda k,src: f'blk @i8 ({AT}{k}) @@i8 ({AT}{src}) size'
DONE=lambda ex,lo: Q('fperm')+f'(q<fperm+{lo} \\/ @i32[q]<0) {ex} -> {blk(B,"(@@i32[q])")}'
ORIG=lambda ex,lo: Q(f'fperm+{lo}')+f'@i32[q]>=0 {ex} -> {blk(B,B)}'
MARK=[Q('fperm','fperm+i')+'@i32[q]=@@i32[q]',Q('fperm+i')+'@i32[q]=@@i32[q] \\/ @i32[q]= -1-@@i32[q]']
STEP=lambda d: ['assert { '+Q('fperm')+f'q<>fperm+{d} -> forall x. {AT}{B}<=x<{AT}{B}+size -> @i8[x]=b1[x] }}','assert { '+Q('fperm')+f'forall c. q<>fperm+{d} -> blk b1 ({AT}{B}) @@i8 c size -> blk @i8 ({AT}{B}) @@i8 c size }}','assert { forall x. item<=x<item+size -> @i8[x]=b1[x] }']
DD='assert { '+Q('fperm')+'q=fperm+d0 -> '+blk(B,"(@@i32[q])")+' }'
SPEC={'gslib_sarray_permute_':dict(memtype='char',
  requires=['n<=2147483647','size>=1','n*size<='+UL,'forall q. perm<=q<perm+n -> 0<=@i32[q]<n','forall q r. perm<=q<perm+n -> perm<=r<perm+n -> @i32[q]=@i32[r] -> q=r','work+size<=vA \\/ vA+n*size<=work'],
  w={'i32':'perm<=a<perm+n','i8':'vA<=a<vA+n*size \\/ work<=a<work+size'},
  ensures=[f'forall q. perm<=q<perm+n -> forall x. at_ vA size (q-perm)<=x<at_ vA size (q-perm)+size -> @i8[x]=@@i8[at_ vA size (@@i32[q])+(x-at_ vA size (q-perm))]','forall q. perm<=q<perm+n -> @i32[q]=@@i32[q]'],
  loops={1:dict(inv=['0<=i<=n']+MARK+[DONE('','i'),ORIG('','i'),Q('fperm+i')+'@i32[q]>=0 -> i<=@@i32[q] /\\ @i32[fperm+@@i32[q]]>=0'],var='n-i'),
         2:dict(inv=['i<=d<n','pi=@@i32[fperm+d]','i<pi<n','@i32[fperm+pi]>=0','@i32[fperm+i]=@@i32[fperm+i]','dst='+AT+'d','src='+AT+'pi','d=i \\/ @i32[fperm+d]<0']+MARK+
            [DONE('/\\ q<>fperm+d','i').replace('@i32[q]<0','@i32[q]<0 \\/ q=fperm+i'),ORIG('/\\ q<>fperm+i','i'),f'forall x. item<=x<item+size -> @i8[x]=@@i8[{AT}i+(x-item)]',
             Q('fperm+i+1')+'@i32[q]>=0 -> i<=@@i32[q] /\\ @i32[fperm+@@i32[q]]>=0'],var='cnt @i32 perm (perm+n)')},
  ghost={('before',1):['let ghost ref d = 0','let ghost ref d0 = 0','let ghost ref b1 = @i8','sepl vA size n','assert { forall k. 0<=k<n -> work+size<=at_ vA size k \\/ at_ vA size k+size<=work }'],('enter',1):['assert { i*size<=n*size }','assert { 0<=@@i32[fperm+i]<n }'],('before',2):['d <- i','assert { i<=@@i32[fperm+i]<n }'],
     ('enter',2):['let ghost h1 = @i32','b1 <- @i8','d0 <- d','d <- pi','let ghost dn = @@i32[fperm+pi]','assert { i<=dn<n /\\ @i32[fperm+pi]=dn /\\ @i32[fperm+dn]>=0 /\\ dn<>pi }','assert { dn*size<=n*size }'],('endbody',2):['assert { '+Q('fperm+i')+'@i32[q]>=0 /\\ q<>fperm+i -> q<>fperm+d0 /\\ h1[q]>=0 }','cnt_mark h1 @i32 perm (perm+n) (perm+d)','cnt_pos @i32 perm (perm+n)']+STEP('d0')+[DD],
     ('after',2):STEP('d0')+[DD,'assert { @@i32[fperm+d]=i }','b1 <- @i8'],('endbody',1):[x for x in STEP('d') if 'item' not in x]+['assert { '+Q('fperm')+'q=fperm+d -> '+blk(B,'(@@i32[q])')+' }','assert { '+Q('fperm')+'(q<fperm+i+1 \\/ @i32[q]<0) /\\ q<>fperm+d -> '+blk(B,'(@@i32[q])')+' }'],
   })}
def units(): return [dict(file='src/sarray_sort.c',specs={k:v for k,v in SPEC.items()},prelude=PRE)]
