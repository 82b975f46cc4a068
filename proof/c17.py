"""C17: bounds of polynomials on a reference interval and box (lob_bnd.c) and element boxes (obbox.c), over the reals.
The specification: for any values F of the basis functions at a point that lie between the tabulated bounds (mixed with two non-negative
weights), add up to one and reproduce the point, the computed bounds enclose the polynomial's value there."""
import re
UM='4294967295'
def dj(a,la,b,lb): return f'({a}+{la}<={b} \\/ {b}+{lb}<={a})'
BASE=r'''
  val ghost md (x y: real) : unit ensures { mulr x y = x *. y }
  let ghost mlt (a b c: int) requires { 0 <= a < b /\ 0 <= c } ensures { a*c+c <= b*c } = assert { (b-a-1)*c >= 0 }
'''
FST=BASE+r'''
  function qs (h: map int real) (q u c n: int) : real
  axiom qs_0: forall h q u c n. n <= 0 -> qs h q u c n = 0.0
  axiom qs_s: forall h q u c n. n >= 0 -> qs h q u c (n+1) = qs h q u c n +. mulr h[q+2*n+c] h[u+n]
  (* what is left of the polynomial at node i when the linear part a0+a1 z is taken out *)
  function fw (h: map int real) (z u: int) (a0 a1: real) (i: int) : real
  axiom fw_def: forall h z u a0 a1 i. fw h z u a0 a1 i = h[u+i] -. (a0 +. mulr a1 h[z+i])
  (* bound s (0 lower, 1 upper) at point j after the first i nodes *)
  function fb (h: map int real) (z g lb u m: int) (a0 a1: real) (s j i: int) : real
  axiom fb_0: forall h z g lb u m a0 a1 s j i. i <= 0 -> fb h z g lb u m a0 a1 s j i = a0 +. mulr a1 h[g+j]
  axiom fb_p: forall h z g lb u m a0 a1 s j i. i >= 0 -> fw h z u a0 a1 i >=. 0.0 -> fb h z g lb u m a0 a1 s j (i+1) = fb h z g lb u m a0 a1 s j i +. mulr (fw h z u a0 a1 i) h[lb+2*(i*m+j)+s]
  axiom fb_n: forall h z g lb u m a0 a1 s j i. i >= 0 -> fw h z u a0 a1 i <. 0.0 -> fb h z g lb u m a0 a1 s j (i+1) = fb h z g lb u m a0 a1 s j i +. mulr (fw h z u a0 a1 i) h[lb+2*(i*m+j)+1-s]
'''
def FB(s,j,i): return f'fb @@f64 z h lb0 u m a0 a1 {s} {j} ({i})'
def rows(lo,hi,i,s=(0,1)): return [f'forall k. {lo}<=k<{hi} -> @f64[b+2*k+{c}]=fb @@f64 z h lb0 u m a0 a1 {c} k ({i})' for c in s]
KEEP='forall q. (q<b \\/ b+2*m<=q) -> @f64[q]=@@f64[q]'
def jl(pos):
    return dict(inv=['0<=j<=m','lb=lb0+2*(i*m)+2*j',KEEP]+rows('0','j','i+1')+rows('j','m','i'),var='m-j')
def stp(pos):
    return ['assert { w=fw @@f64 z u a0 a1 i }',f'assert {{ w {">=." if pos else "<."} 0.0 }}','assert { @f64[lb]=@@f64[lb0+2*(i*m+j)] }','assert { @f64[lb+1]=@@f64[lb0+2*(i*m+j)+1] }','let ghost hb=@f64']
def fin(pos):
    return [f'assert {{ {FB(c,"j","i+1")} = {FB(c,"j","i")} +. mulr w @@f64[lb0+2*(i*m+j)+{c if pos else 1-c}] }}' for c in(0,1)]+[f'assert {{ @f64[b+2*j+{c}] = {FB(c,"j","i+1")} }}' for c in(0,1)]

PURE=r"""
  let ghost st1 (l0 l1 fj fk w pj pk f: real) requires { w >=. 0.0 /\ l0 *. pj +. l1 *. pk <=. f } ensures { l0 *. (fj +. w *. pj) +. l1 *. (fk +. w *. pk) <=. l0 *. fj +. l1 *. fk +. w *. f }
   = let ghost d = f -. (l0 *. pj +. l1 *. pk) in assert { w *. d >=. 0.0 }; assert { w *. d = w *. f -. w *. (l0 *. pj) -. w *. (l1 *. pk) }; assert { w *. (l0 *. pj) = l0 *. (w *. pj) }; assert { w *. (l1 *. pk) = l1 *. (w *. pk) }; assert { l0 *. (fj +. w *. pj) = l0 *. fj +. l0 *. (w *. pj) }; assert { l1 *. (fk +. w *. pk) = l1 *. fk +. l1 *. (w *. pk) }
  let ghost neg2 (l0 l1 p q f: real) requires { f <=. l0 *. p +. l1 *. q } ensures { l0 *. (-. p) +. l1 *. (-. q) <=. -. f } = ()
  let ghost ngw (w p: real) ensures { (-. w) *. (-. p) = w *. p } ensures { (-. w) *. p = -. (w *. p) } = ()
  let ghost ngs (l0 l1 a b: real) ensures { l0 *. (-. a) +. l1 *. (-. b) = -. (l0 *. a +. l1 *. b) } = ()
  let ghost st1n (l0 l1 fj fk w pj pk f: real) requires { w <. 0.0 /\ f <=. l0 *. pj +. l1 *. pk } ensures { l0 *. (fj +. w *. pj) +. l1 *. (fk +. w *. pk) <=. l0 *. fj +. l1 *. fk +. w *. f }
   = neg2 l0 l1 pj pk f; ngw w pj; ngw w pk; ngw w f; st1 l0 l1 fj fk (-. w) (-. pj) (-. pk) (-. f)
  let ghost st2 (l0 l1 fj fk w pj pk f: real) requires { w >=. 0.0 /\ f <=. l0 *. pj +. l1 *. pk } ensures { l0 *. (fj +. w *. pj) +. l1 *. (fk +. w *. pk) >=. l0 *. fj +. l1 *. fk +. w *. f }
   = neg2 l0 l1 pj pk f; ngw w pj; ngw w pk; ngw w f; ngw (-. w) pj; ngw (-. w) pk; ngw (-. w) f; st1 l0 l1 (-. fj) (-. fk) w (-. pj) (-. pk) (-. f); ngs l0 l1 fj fk; ngs l0 l1 (fj +. w *. pj) (fk +. w *. pk)
  let ghost st2n (l0 l1 fj fk w pj pk f: real) requires { w <. 0.0 /\ l0 *. pj +. l1 *. pk <=. f } ensures { l0 *. (fj +. w *. pj) +. l1 *. (fk +. w *. pk) >=. l0 *. fj +. l1 *. fk +. w *. f }
   = assert { (-. f) <=. l0 *. (-. pj) +. l1 *. (-. pk) }; ngw w pj; ngw w pk; ngw w f; st2 l0 l1 fj fk (-. w) (-. pj) (-. pk) (-. f)
  let ghost bas (l0 l1 a0 a1 hj hk x: real) requires { l0 +. l1 = 1.0 /\ x = l0 *. hj +. l1 *. hk } ensures { l0 *. (a0 +. a1 *. hj) +. l1 *. (a0 +. a1 *. hk) = a0 +. a1 *. x }
   = assert { a1 *. x = l0 *. (a1 *. hj) +. l1 *. (a1 *. hk) }; assert { l0 *. a0 +. l1 *. a0 = (l0 +. l1) *. a0 }; assert { l0 *. a0 +. l1 *. a0 = a0 }
  let ghost tst (t su s sz a0 a1 z u f: real) requires { t = su -. a0 *. s -. a1 *. sz } ensures { t +. (u -. (a0 +. a1 *. z)) *. f = (su +. f *. u) -. a0 *. (s +. f) -. a1 *. (sz +. f *. z) } = ()
  let ghost tst2 (t su s sz a0 a1 z u f w t2 su2 s2 sz2: real) requires { t = su -. a0 *. s -. a1 *. sz } requires { w = u -. (a0 +. a1 *. z) } requires { t2 = t +. w *. f } requires { su2 = su +. f *. u } requires { s2 = s +. f } requires { sz2 = sz +. f *. z } ensures { t2 = su2 -. a0 *. s2 -. a1 *. sz2 } = tst t su s sz a0 a1 z u f
  function mix (l0 l1 a b: real) : real
  val ghost mixd (l0 l1 a b: real) : unit ensures { mix l0 l1 a b = l0 *. a +. l1 *. b }
  let ghost ch0 (l0 l1 fj fk ej ek gj gk wv c t t2: real) requires { gj = ej } requires { gk = ek } requires { l0 *. ej +. l1 *. ek <=. l0 *. fj +. l1 *. fk +. wv } requires { mix l0 l1 fj fk <=. c +. t } requires { t2 = t +. wv } ensures { mix l0 l1 gj gk <=. c +. t2 } = mixd l0 l1 fj fk; mixd l0 l1 gj gk
  let ghost ch1 (l0 l1 fj fk ej ek gj gk wv c t t2: real) requires { gj = ej } requires { gk = ek } requires { l0 *. ej +. l1 *. ek >=. l0 *. fj +. l1 *. fk +. wv } requires { mix l0 l1 fj fk >=. c +. t } requires { t2 = t +. wv } ensures { mix l0 l1 gj gk >=. c +. t2 } = mixd l0 l1 fj fk; mixd l0 l1 gj gk
  let ghost bz (l0 l1 gj gk ej ek c t: real) requires { gj = ej } requires { gk = ek } requires { l0 *. ej +. l1 *. ek = c } requires { t = 0.0 } ensures { mix l0 l1 gj gk = c +. t } = mixd l0 l1 gj gk
  let ghost tz (a b: real) ensures { 0.0 -. a *. 0.0 -. b *. 0.0 = 0.0 } = ()
  let ghost cvx (l0 l1 lo a b: real) requires { l0 >=. 0.0 /\ l1 >=. 0.0 /\ l0 +. l1 = 1.0 /\ lo <=. a /\ lo <=. b } ensures { lo <=. l0 *. a +. l1 *. b } = assert { l0 *. (a -. lo) >=. 0.0 }; assert { l1 *. (b -. lo) >=. 0.0 }; assert { l0 *. lo +. l1 *. lo = (l0 +. l1) *. lo }
  let ghost cvx2 (l0 l1 up a b: real) requires { l0 >=. 0.0 /\ l1 >=. 0.0 /\ l0 +. l1 = 1.0 /\ up >=. a /\ up >=. b } ensures { up >=. l0 *. a +. l1 *. b } = assert { l0 *. (up -. a) >=. 0.0 }; assert { l1 *. (up -. b) >=. 0.0 }; assert { l0 *. up +. l1 *. up = (l0 +. l1) *. up }
"""
ROW=r"""
  let rec ghost qsx (h g: map int real) (q u c n: int) requires { 0 <= n /\ 0 <= c < 2 } requires { forall a. q <= a < q+2*n -> h[a] = g[a] } requires { forall a. u <= a < u+n -> h[a] = g[a] } ensures { qs h q u c n = qs g q u c n } variant { n }
   = if n > 0 then begin qsx h g q u c (n-1); let ghost i = n-1 in assert { h[q+2*i+c] = g[q+2*i+c] }; assert { h[u+i] = g[u+i] }; assert { qs h q u c (i+1) = qs h q u c i +. mulr h[q+2*i+c] h[u+i] }; assert { qs g q u c (i+1) = qs g q u c i +. mulr g[q+2*i+c] g[u+i] } end
  let rec ghost fbx (h f: map int real) (z g lb u m n: int) (a0 a1: real) (s j i: int) requires { 0 <= i <= n /\ 0 <= s < 2 /\ 0 <= j < m } requires { forall a. z <= a < z+n -> h[a] = f[a] } requires { forall a. u <= a < u+n -> h[a] = f[a] } requires { forall a. g <= a < g+m -> h[a] = f[a] } requires { forall a. lb <= a < lb+2*(n*m) -> h[a] = f[a] }
    ensures { fb h z g lb u m a0 a1 s j i = fb f z g lb u m a0 a1 s j i } variant { i }
   = if i > 0 then begin let ghost r = i-1 in fbx h f z g lb u m n a0 a1 s j r; mlt r n m; assert { h[z+r] = f[z+r] }; assert { h[u+r] = f[u+r] }; assert { fw h z u a0 a1 r = fw f z u a0 a1 r }; assert { h[lb+2*(r*m+j)+s] = f[lb+2*(r*m+j)+s] }; assert { h[lb+2*(r*m+j)+1-s] = f[lb+2*(r*m+j)+1-s] };
       if pure { fw h z u a0 a1 r >=. 0.0 } then assert { fb h z g lb u m a0 a1 s j (r+1) = fb h z g lb u m a0 a1 s j r +. mulr (fw h z u a0 a1 r) h[lb+2*(r*m+j)+s] /\ fb f z g lb u m a0 a1 s j (r+1) = fb f z g lb u m a0 a1 s j r +. mulr (fw f z u a0 a1 r) f[lb+2*(r*m+j)+s] }
       else assert { fb h z g lb u m a0 a1 s j (r+1) = fb h z g lb u m a0 a1 s j r +. mulr (fw h z u a0 a1 r) h[lb+2*(r*m+j)+1-s] /\ fb f z g lb u m a0 a1 s j (r+1) = fb f z g lb u m a0 a1 s j r +. mulr (fw f z u a0 a1 r) f[lb+2*(r*m+j)+1-s] } end else assert { h[g+j] = f[g+j] }
  (* the two bounds of one line at point j, for set-up data d of n nodes and m points *)
  function rb (h: map int real) (d n m u s j: int) : real
  axiom rb_def: forall h d n m u s j. rb h d n m u s j = fb h d (d+3*n) (d+3*n+m) u m (qs h (d+n) u 0 n) (qs h (d+n) u 1 n) s j n
  let ghost rbx (h f: map int real) (d n m u s j: int) requires { 0 <= n /\ 0 <= s < 2 /\ 0 <= j < m } requires { forall a. u <= a < u+n -> h[a] = f[a] } requires { forall a. d <= a < d+3*n+m+2*(n*m) -> h[a] = f[a] } ensures { rb h d n m u s j = rb f d n m u s j }
   = (if n > 0 then mlt 0 n m); assert { n*m >= 0 }; qsx h f (d+n) u 0 n; qsx h f (d+n) u 1 n; fbx h f d (d+3*n) (d+3*n+m) u m n (qs h (d+n) u 0 n) (qs h (d+n) u 1 n) s j n
  predicate row1 (h0 h: map int real) (d n m u b: int)
  val ghost row1d (h0 h: map int real) (d n m u b: int) : unit ensures { row1 h0 h d n m u b <-> forall j. 0 <= j < m -> h[b+2*j] = rb h0 d n m u 0 j /\ h[b+2*j+1] = rb h0 d n m u 1 j }
  let ghost row1f (h0 h g: map int real) (d n m u b: int) requires { row1 h0 h d n m u b } requires { forall a. b <= a < b+2*m -> g[a] = h[a] } ensures { row1 h0 g d n m u b } = row1d h0 h d n m u b; row1d h0 g d n m u b
  let ghost row1x (h0 g h: map int real) (d n m u b: int) requires { 0 <= n /\ 0 <= m } requires { forall j. 0 <= j < m -> h[b+2*j] = rb g d n m u 0 j } requires { forall j. 0 <= j < m -> h[b+2*j+1] = rb g d n m u 1 j } requires { forall a. u <= a < u+n -> h0[a] = g[a] } requires { forall a. d <= a < d+3*n+m+2*(n*m) -> h0[a] = g[a] } ensures { row1 h0 h d n m u b }
   = for j_ = 0 to m-1 do invariant { forall j. 0 <= j < j_ -> h[b+2*j] = rb h0 d n m u 0 j /\ h[b+2*j+1] = rb h0 d n m u 1 j } rbx h0 g d n m u 0 j_; rbx h0 g d n m u 1 j_ done; row1d h0 h d n m u b
  (* line r of a block of lines *)
  predicate rk (h0 h: map int real) (d n m u b r: int)
  val ghost rkd (h0 h: map int real) (d n m u b r: int) : unit ensures { rk h0 h d n m u b r <-> row1 h0 h d n m (u+r*n) (b+r*(2*m)) }
  let ghost rkf (h0 h g: map int real) (d n m u b t: int) requires { 0 <= m /\ 0 <= t } requires { forall r. 0 <= r < t -> rk h0 h d n m u b r } requires { forall a. b <= a < b+t*(2*m) -> g[a] = h[a] } ensures { forall r. 0 <= r < t -> rk h0 g d n m u b r }
   = for r_ = 0 to t-1 do invariant { forall r. 0 <= r < r_ -> rk h0 g d n m u b r } mlt r_ t (2*m); let ghost o = b+r_*(2*m) in assert { b <= o /\ o+2*m <= b+t*(2*m) }; rkd h0 h d n m u b r_; rkd h0 g d n m u b r_; row1f h0 h g d n m (u+r_*n) o done
  let ghost rki (h0 h: map int real) (d n m u b uu bb r: int) requires { uu = u+r*n } requires { bb = b+r*(2*m) } requires { row1 h0 h d n m uu bb } ensures { rk h0 h d n m u b r } = rkd h0 h d n m u b r
"""
ENC1=r"""
  let ghost cva (l0 l1 a b: real) requires { l0 >=. 0.0 /\ l1 >=. 0.0 /\ l0 +. l1 = 1.0 } ensures { forall lo. lo <=. a -> lo <=. b -> lo <=. mix l0 l1 a b } ensures { forall up. up >=. a -> up >=. b -> up >=. mix l0 l1 a b }
   = mixd l0 l1 a b; if pure { a <=. b } then begin cvx l0 l1 a a b; cvx2 l0 l1 b a b end else begin cvx l0 l1 b a b; cvx2 l0 l1 a a b end
  predicate wit1 (h f: map int real) (d n m j k: int) (l0 l1: real) = 0 <= j < m /\ 0 <= k < m /\ (forall q. 0 <= q < n -> blo h f (d+3*n+m) m j k l0 l1 q) /\ bas1 h f d (d+3*n) n j k l0 l1
  let ghost encr (h0 h f: map int real) (d n m u b: int) (j k: int) (l0 l1: real) requires { 0 <= n } requires { row1 h0 h d n m u b } requires { wit1 h0 f d n m j k l0 l1 }
    ensures { forall lo. lo <=. h[b+2*j] -> lo <=. h[b+2*k] -> lo <=. sp h0 f u n } ensures { forall up. up >=. h[b+2*j+1] -> up >=. h[b+2*k+1] -> up >=. sp h0 f u n }
   = row1d h0 h d n m u b; enc1 h0 f d (d+3*n) (d+3*n+m) u m n (qs h0 (d+n) u 0 n) (qs h0 (d+n) u 1 n) j k l0 l1; cva l0 l1 h[b+2*j] h[b+2*k]; cva l0 l1 h[b+2*j+1] h[b+2*k+1];
     assert { h[b+2*j] = fb h0 d (d+3*n) (d+3*n+m) u m (qs h0 (d+n) u 0 n) (qs h0 (d+n) u 1 n) 0 j n }; assert { h[b+2*k] = fb h0 d (d+3*n) (d+3*n+m) u m (qs h0 (d+n) u 0 n) (qs h0 (d+n) u 1 n) 0 k n }; assert { h[b+2*j+1] = fb h0 d (d+3*n) (d+3*n+m) u m (qs h0 (d+n) u 0 n) (qs h0 (d+n) u 1 n) 1 j n }; assert { h[b+2*k+1] = fb h0 d (d+3*n) (d+3*n+m) u m (qs h0 (d+n) u 0 n) (qs h0 (d+n) u 1 n) 1 k n }
"""
ENC=r"""
  (* sums over the basis values f at a point: of the values, of value times node, of value times coefficient *)
  function sf (f: map int real) (n: int) : real
  axiom sf_0: forall f n. n <= 0 -> sf f n = 0.0
  axiom sf_s: forall f n. n >= 0 -> sf f (n+1) = sf f n +. f[n]
  function sp (h f: map int real) (z n: int) : real
  axiom sp_0: forall h f z n. n <= 0 -> sp h f z n = 0.0
  axiom sp_s: forall h f z n. n >= 0 -> sp h f z (n+1) = sp h f z n +. mulr f[n] h[z+n]
  function stt (h f: map int real) (z u: int) (a0 a1: real) (n: int) : real
  axiom stt_0: forall h f z u a0 a1 n. n <= 0 -> stt h f z u a0 a1 n = 0.0
  axiom stt_s: forall h f z u a0 a1 n. n >= 0 -> stt h f z u a0 a1 (n+1) = stt h f z u a0 a1 n +. mulr (fw h z u a0 a1 n) f[n]
  (* a point between table points j and k (weights l0, l1) and values f of the basis functions there: within the tabulated bounds, adding up to one, reproducing the point *)
  predicate blo (h f: map int real) (lb m j k: int) (l0 l1: real) (i: int) = mulr l0 h[lb+2*(i*m+j)] +. mulr l1 h[lb+2*(i*m+k)] <=. f[i] <=. mulr l0 h[lb+2*(i*m+j)+1] +. mulr l1 h[lb+2*(i*m+k)+1]
  predicate bas1 (h f: map int real) (z g n j k: int) (l0 l1: real) = l0 >=. 0.0 /\ l1 >=. 0.0 /\ l0 +. l1 = 1.0 /\ sf f n = 1.0 /\ sp h f z n = mulr l0 h[g+j] +. mulr l1 h[g+k]
  let rec ghost tsum (h f: map int real) (z u: int) (a0 a1: real) (n: int) requires { 0 <= n }
    ensures { stt h f z u a0 a1 n = sp h f u n -. a0 *. sf f n -. a1 *. sp h f z n } variant { n }
   = if n > 0 then begin tsum h f z u a0 a1 (n-1); let ghost i = n-1 in
       assert { sp h f u (i+1) = sp h f u i +. mulr f[i] h[u+i] }; assert { sp h f z (i+1) = sp h f z i +. mulr f[i] h[z+i] }; assert { sf f (i+1) = sf f i +. f[i] }; assert { stt h f z u a0 a1 (i+1) = stt h f z u a0 a1 i +. mulr (fw h z u a0 a1 i) f[i] };
       md f[i] h[u+i]; md f[i] h[z+i]; md a1 h[z+i]; md (fw h z u a0 a1 i) f[i];
       tst2 (stt h f z u a0 a1 i) (sp h f u i) (sf f i) (sp h f z i) a0 a1 h[z+i] h[u+i] f[i] (fw h z u a0 a1 i) (stt h f z u a0 a1 n) (sp h f u n) (sf f n) (sp h f z n) end else begin tz a0 a1; assert { stt h f z u a0 a1 n = 0.0 /\ sp h f u n = 0.0 /\ sf f n = 0.0 /\ sp h f z n = 0.0 } end
  let rec ghost encst (h f: map int real) (z g lb u m n: int) (a0 a1: real) (j k: int) (l0 l1 x: real) (i: int) requires { 0 <= i <= n } requires { forall q. 0 <= q < n -> blo h f lb m j k l0 l1 q } requires { l0 +. l1 = 1.0 /\ x = l0 *. h[g+j] +. l1 *. h[g+k] }
    ensures { mix l0 l1 (fb h z g lb u m a0 a1 0 j i) (fb h z g lb u m a0 a1 0 k i) <=. a0 +. a1 *. x +. stt h f z u a0 a1 i }
    ensures { mix l0 l1 (fb h z g lb u m a0 a1 1 j i) (fb h z g lb u m a0 a1 1 k i) >=. a0 +. a1 *. x +. stt h f z u a0 a1 i } variant { i }
   = if i = 0 then begin md a1 h[g+j]; md a1 h[g+k]; bas l0 l1 a0 a1 h[g+j] h[g+k] x; assert { fb h z g lb u m a0 a1 0 j i = a0 +. a1 *. h[g+j] }; assert { fb h z g lb u m a0 a1 1 j i = a0 +. a1 *. h[g+j] }; assert { fb h z g lb u m a0 a1 0 k i = a0 +. a1 *. h[g+k] }; assert { fb h z g lb u m a0 a1 1 k i = a0 +. a1 *. h[g+k] }; assert { stt h f z u a0 a1 i = 0.0 }; bz l0 l1 (fb h z g lb u m a0 a1 0 j i) (fb h z g lb u m a0 a1 0 k i) (a0 +. a1 *. h[g+j]) (a0 +. a1 *. h[g+k]) (a0 +. a1 *. x) (stt h f z u a0 a1 i); bz l0 l1 (fb h z g lb u m a0 a1 1 j i) (fb h z g lb u m a0 a1 1 k i) (a0 +. a1 *. h[g+j]) (a0 +. a1 *. h[g+k]) (a0 +. a1 *. x) (stt h f z u a0 a1 i) end
     else begin let ghost r = i-1 in encst h f z g lb u m n a0 a1 j k l0 l1 x r;
       let ghost w = fw h z u a0 a1 r in let ghost pj = pure { h[lb+2*(r*m+j)] } in let ghost pk = pure { h[lb+2*(r*m+k)] } in let ghost qj = pure { h[lb+2*(r*m+j)+1] } in let ghost qk = pure { h[lb+2*(r*m+k)+1] } in let ghost v = pure { f[r] } in
       let ghost f0j = fb h z g lb u m a0 a1 0 j r in let ghost f0k = fb h z g lb u m a0 a1 0 k r in let ghost f1j = fb h z g lb u m a0 a1 1 j r in let ghost f1k = fb h z g lb u m a0 a1 1 k r in
       md l0 pj; md l1 pk; md l0 qj; md l1 qk; md w v; assert { blo h f lb m j k l0 l1 r }; assert { l0 *. pj +. l1 *. pk <=. v <=. l0 *. qj +. l1 *. qk };
       assert { stt h f z u a0 a1 i = stt h f z u a0 a1 r +. w *. v };
       if pure { w >=. 0.0 } then begin
         md w pj; md w pk; md w qj; md w qk;
         assert { fb h z g lb u m a0 a1 0 j (r+1) = f0j +. w *. pj }; assert { fb h z g lb u m a0 a1 0 k (r+1) = f0k +. w *. pk };
         assert { fb h z g lb u m a0 a1 1 j (r+1) = f1j +. w *. qj }; assert { fb h z g lb u m a0 a1 1 k (r+1) = f1k +. w *. qk };
         st1 l0 l1 f0j f0k w pj pk v; st2 l0 l1 f1j f1k w qj qk v; ch0 l0 l1 f0j f0k (f0j +. w *. pj) (f0k +. w *. pk) (fb h z g lb u m a0 a1 0 j i) (fb h z g lb u m a0 a1 0 k i) (w *. v) (a0 +. a1 *. x) (stt h f z u a0 a1 r) (stt h f z u a0 a1 i); ch1 l0 l1 f1j f1k (f1j +. w *. qj) (f1k +. w *. qk) (fb h z g lb u m a0 a1 1 j i) (fb h z g lb u m a0 a1 1 k i) (w *. v) (a0 +. a1 *. x) (stt h f z u a0 a1 r) (stt h f z u a0 a1 i) end
       else begin
         md w pj; md w pk; md w qj; md w qk;
         assert { fb h z g lb u m a0 a1 0 j (r+1) = f0j +. w *. qj }; assert { fb h z g lb u m a0 a1 0 k (r+1) = f0k +. w *. qk };
         assert { fb h z g lb u m a0 a1 1 j (r+1) = f1j +. w *. pj }; assert { fb h z g lb u m a0 a1 1 k (r+1) = f1k +. w *. pk };
         st1n l0 l1 f0j f0k w qj qk v; st2n l0 l1 f1j f1k w pj pk v; ch0 l0 l1 f0j f0k (f0j +. w *. qj) (f0k +. w *. qk) (fb h z g lb u m a0 a1 0 j i) (fb h z g lb u m a0 a1 0 k i) (w *. v) (a0 +. a1 *. x) (stt h f z u a0 a1 r) (stt h f z u a0 a1 i); ch1 l0 l1 f1j f1k (f1j +. w *. pj) (f1k +. w *. pk) (fb h z g lb u m a0 a1 1 j i) (fb h z g lb u m a0 a1 1 k i) (w *. v) (a0 +. a1 *. x) (stt h f z u a0 a1 r) (stt h f z u a0 a1 i) end end
  let ghost fin1 (a0 a1 x s su t: real) requires { s = 1.0 /\ t = su -. a0 *. s -. a1 *. x } ensures { a0 +. a1 *. x +. t = su } = ()
  (* the bounds at the two neighbouring points, mixed with the same weights, enclose the value *)
  let ghost enc1 (h f: map int real) (z g lb u m n: int) (a0 a1: real) (j k: int) (l0 l1: real) requires { 0 <= n } requires { forall q. 0 <= q < n -> blo h f lb m j k l0 l1 q } requires { bas1 h f z g n j k l0 l1 }
    ensures { mix l0 l1 (fb h z g lb u m a0 a1 0 j n) (fb h z g lb u m a0 a1 0 k n) <=. sp h f u n <=. mix l0 l1 (fb h z g lb u m a0 a1 1 j n) (fb h z g lb u m a0 a1 1 k n) }
   = md l0 h[g+j]; md l1 h[g+k]; let ghost x = sp h f z n in encst h f z g lb u m n a0 a1 j k l0 l1 x n; tsum h f z u a0 a1 n; fin1 a0 a1 x (sf f n) (sp h f u n) (stt h f z u a0 a1 n)
"""
SPEC={
 'lob_bnd_fst':dict(requires=['1<=n','1<=m','2*n*m<=1000000000','n<=100000000','m<=100000000',dj('b','2*m','z','n'),dj('b','2*m','vQ','2*n'),dj('b','2*m','h','m'),dj('b','2*m','lb','2*(n*m)'),dj('b','2*m','u','n')],prelude=FST,
   w={'f64':'b<=a<b+2*m'},
   ensures=[f'forall j. 0<=j<m -> @f64[b+2*j+{s}]=fb @@f64 z h lb u m (qs @@f64 vQ u 0 n) (qs @@f64 vQ u 1 n) {s} j n' for s in(0,1)],
   loops={1:dict(inv=['0<=i<=n','a0=qs @@f64 vQ u 0 i','a1=qs @@f64 vQ u 1 i'],var='n-i'),
     2:dict(inv=['0<=j<=m',KEEP]+rows('0','j','0'),var='m-j'),
     3:dict(inv=['0<=i<=n','lb=lb0+2*(i*m)',KEEP]+rows('0','m','i'),var='n-i'),
     4:jl(1),5:jl(0)},
   ghost={'entry':['let ghost lb0 = lb'],('enter',3):['mlt i n m','assert { @f64[u+i]=@@f64[u+i] /\\ @f64[z+i]=@@f64[z+i] }'],
     ('enter',1):['assert { @f64[vQ+2*i+1]=@@f64[vQ+2*i+1] }'],
     ('enter',4):stp(1),('enter',5):stp(0),('endbody',4):fin(1),('endbody',5):fin(0),
     ('endbody',3):['assert { (i+1)*m=i*m+m }']}),
}
LB='lob_bnd_data'
SZ=f'3*n+m+2*(n*m)'
SPEC['gslib_lob_bnd_lin_1']=dict(requires=['1<=n<=100000000','1<=m<=100000000','2*n*m<=1000000000','un*n<=1000000000','un*m<=1000000000',dj('b','un*(2*m)',LB,SZ),dj('b','un*(2*m)','u','un*n')],prelude=FST+ROW,
   w={'f64':'b<=a<b+un*(2*m)'},
   ensures=[f'forall r. 0<=r<un -> rk @@f64 @f64 {LB} n m u b r'],
   loops={1:dict(inv=['0<=un<=un0','u=u0+(un0-un)*n','b=b0+(un0-un)*(2*m)','forall q. (q<b0 \\/ b0+un0*(2*m)<=q) -> @f64[q]=@@f64[q]',f'forall r. 0<=r<un0-un -> rk @@f64 @f64 {LB} n m u0 b0 r'],var='un')},
   ghost={'entry':['let ghost un0 = un','let ghost u0 = u','let ghost b0 = b'],
     ('enter',1):['let ghost hb = @f64','let ghost r = un0-un','mlt r un0 n','mlt r un0 (2*m)'],
     ('endbody',1):[f'assert {{ forall j. 0<=j<m -> @f64[b+2*j] = fb hb {LB} ({LB}+3*n) ({LB}+3*n+m) u m (qs hb ({LB}+n) u 0 n) (qs hb ({LB}+n) u 1 n) 0 j n }}',f'assert {{ forall j. 0<=j<m -> @f64[b+2*j+1] = fb hb {LB} ({LB}+3*n) ({LB}+3*n+m) u m (qs hb ({LB}+n) u 0 n) (qs hb ({LB}+n) u 1 n) 1 j n }}',
       f'row1x h0_f64 hb @f64 {LB} n m u b',
       f'rkf h0_f64 hb @f64 {LB} n m u0 b0 r',f'rki h0_f64 @f64 {LB} n m u0 b0 u b r','assert { (r+1)*n=r*n+n }','assert { (r+1)*(2*m)=r*(2*m)+2*m }']})
SPEC['minmax']=dict(requires=['1<=m','m<=1000000000'],ensures=['let (lo,up)=result in forall j. 0<=j<m -> lo<=. @f64[b+2*j] /\\ @f64[b+2*j+1]<=. up']+[f'let (lo,up)=result in 0<={x}<m -> lo<=. @f64[b+2*{x}] /\\ @f64[b+2*{x}+1]<=. up' for x in('jj','kk')],ghostparams='(ghost jj: int) (ghost kk: int)',
  r={'f64':'b<=a<b+2*m'},
  loops={1:dict(inv=['0<=m<m0','b=b0+2*(m0-m)','forall j. 0<=j<m0-m -> bnd_min<=. @f64[b0+2*j] /\\ @f64[b0+2*j+1]<=. bnd_max'],var='m')},
  ghost={'entry':['let ghost m0 = m','let ghost b0 = b']})
GP='(ghost ff: map int real) (ghost jj: int) (ghost kk: int) (ghost l0: real) (ghost l1: real)'
SPEC['gslib_lob_bnd_1']=dict(requires=['1<=n<=100000000','1<=m<=100000000','2*n*m<=1000000000',dj('work','2*m',LB,SZ),dj('work','2*m','u','n')],prelude=PURE+FST+ENC+ROW+ENC1,ghostparams=GP,callghost={'minmax':'jj kk'},
   w={'f64':'work<=a<work+2*m'},
   ensures=[f'let (lo,up)=result in wit1 @@f64 ff {LB} n m jj kk l0 l1 -> lo<=. sp @@f64 ff u n <=. up'],
   ghost={('aftercall','gslib_lob_bnd_lin_1',1):[f'rkd h0_f64 @f64 {LB} n m u work 0',f'assert {{ row1 h0_f64 @f64 {LB} n m u work }}',f'if pure {{ wit1 h0_f64 ff {LB} n m jj kk l0 l1 }} then encr h0_f64 @f64 ff {LB} n m u work jj kk l0 l1']})
# --- element boxes
BX=BASE.replace("  val ghost md (x y: real) : unit ensures { mulr x y = x *. y }\n","")
def inv(n):
    I=lambda i,j:'+.'.join(f'@f64[inv+{i*n+k}] *. vA{k*n+j}' for k in range(n))
    return I
def M(i,j,n): return f'@f64[inv+{i*n+j}]'
D2='(@@f64[vA] *. @@f64[vA+3] -. @@f64[vA+1] *. @@f64[vA+2])'
A_=lambda k:f'@@f64[vA+{k}]'
D3=f'({A_(0)} *. ({A_(4)} *. {A_(8)} -. {A_(5)} *. {A_(7)}) +. {A_(1)} *. ({A_(5)} *. {A_(6)} -. {A_(3)} *. {A_(8)}) +. {A_(2)} *. ({A_(3)} *. {A_(7)} -. {A_(4)} *. {A_(6)}))'
def ident(n,D): return [f'{D}<>0.0 -> '+' +. '.join(f'@f64[inv+{i*n+k}] *. @@f64[vA+{k*n+j}]' for k in range(n))+f' = {1.0 if i==j else 0.0}' for i in range(n) for j in range(n)]
def tfm(n): 
    c='xyz'
    pl=lambda b,o:b if o in(0,'0') else f'{b}+{o}'
    T=lambda i,k:f'mulr @@f64[{pl("vJi",i*n)}] (@@f64[x+{k}] -. @@f64[x0])'+''.join(f' +. mulr @@f64[{pl("vJi",i*n+d)}] (@@f64[{c[d]}+{k}] -. @@f64[x0+{d}])' for d in range(1,n))
    O=['out','out+n','out+2*n']
    ps='h x0 vJi '+' '.join(c[:n])
    pre=''.join(f'  function tf{i} (h: map int real) (x0 vJi {" ".join(c[:n])} k: int) : real\n  axiom tf{i}_def: forall {ps} k. tf{i} {ps} k = {T(i,"k").replace("@@f64","h")}\n' for i in range(n))
    F=lambda i,k:f'tf{i} @@f64 x0 vJi {" ".join(c[:n])} {k}'
    E=lambda hi:[f'forall q. {O[i]}<=q<{O[i]}+{hi} -> @f64[q] = {F(i,"(q-("+O[i]+"))")}' for i in range(n)]
    req=['%d*n<=4294967295'%n]+[dj('out',f'{n}*n',a,l) for a,l in [('x0',str(n)),('vJi',str(n*n))]+[(c[d],'n') for d in range(n)]]
    return dict(requires=req,keep=[f'@f64[{a}]=@@f64[{a}]' for a in ['vJi','x0']+[f'vJi+{k}' for k in range(1,n*n)]+[f'x0+{k}' for k in range(1,n)]+[f'{v}+i' for v in c[:n]]],prelude=pre,w={'f64':f'out<=a<out+{n}*n'},ensures=E('n'),loops={1:dict(inv=['0<=i<=n',f'forall q. (q<out \\/ out+{n}*n<=q) -> @f64[q]=@@f64[q]']+E('i'),var='n-i')},ghost={('endbody',1):[f'assert {{ @f64[{O[k]}+i] = {T(k,"i")} }}' for k in range(n)]+([f'assert {{ forall q. {O[k]}<=q<{O[k]}+i -> @f64[q]=hb[q] }}' for k in range(n)])+[f'assert {{ @f64[{O[k]}+i] = {F(k,"i")} }}' for k in range(n)],('enter',1):['let ghost hb = @f64']})
def ml(n,D):
    a=[f'a{k}' for k in range(n*n)]; w=[f'w{k}' for k in range(n*n)]
    rp=lambda t:re.sub(r'@@f64\[vA(?:\+(\d))?\]',lambda m:'a'+(m.group(1) or '0'),t)
    det=rp(D)
    if n==2: W=['i *. a3','-. (i *. a1)','-. (i *. a2)','i *. a0']
    else:
        f=lambda p,q,r,t:f'i *. (a{p} *. a{q} -. a{r} *. a{t})'
        W=[f(4,8,5,7),f(2,7,1,8),f(1,5,2,4),f(5,6,3,8),f(0,8,2,6),f(2,3,0,5),f(3,7,4,6),f(1,6,0,7),f(0,4,1,3)]
    goals=[' +. '.join(f'w{i*n+k} *. a{k*n+j}' for k in range(n))+f' = {1.0 if i==j else 0.0}' for i in range(n) for j in range(n)]
    L=f'  let ghost mi{n} (i {" ".join(a)} {" ".join(w)}: real) requires {{ {det} <> 0.0 }} requires {{ i = 1.0 /. {det} }} '+' '.join(f'requires {{ w{k} = {W[k]} }}' for k in range(n*n))+' '+' '.join(f'ensures {{ {g} }}' for g in goals)+f' = assert {{ i *. {det} = 1.0 }}'
    for i in range(n):
        for j in range(n): L+='; assert { '+' +. '.join(f'({W[i*n+k]}) *. a{k*n+j}' for k in range(n))+(f' = i *. {det}' if i==j else ' = 0.0')+' }'
    return L+'\n',[f'if pure {{ {D} <> 0.0 }} then mi{n} idet '+' '.join(f'@@f64[vA+{k}]' if k else '@@f64[vA]' for k in range(n*n))+' '+' '.join(f'@f64[inv+{k}]' if k else '@f64[inv]' for k in range(n*n))]
OSPEC={
 'mat_inv_2':dict(requires=[dj('inv','4','vA','4')],w={'f64':'inv<=a<inv+4'},ensures=ident(2,D2),prelude=ml(2,D2)[0],ghost={'exit':ml(2,D2)[1]}),
 'dbl_range_merge':dict(ensures=['let (lo,up)=result in lo<=.va_min /\\ lo<=.b_min /\\ up>=.va_max /\\ up>=.b_max']),
 'dbl_range_expand':dict(ensures=['let (lo,up)=result in b_min<=.b_max -> tol>=.0.0 -> lo<=.b_min /\\ b_max<=.up']),
}
def mi3():
    pre,ex=ml(3,D3); pre=BASE+pre
    A=lambda k:'@@f64[vA+%d]'%k if k else '@@f64[vA]'
    prs=[(4,8,5,7),(5,6,3,8),(3,7,4,6),(2,7,1,8),(1,5,2,4),(0,8,2,6),(2,3,0,5),(1,6,0,7),(0,4,1,3)]
    ent=[f'md {A(p)} {A(q)}' for t in prs for p,q in(t[:2],t[2:])]+[f'md {A(k)} ({A(p)} *. {A(q)} -. {A(r)} *. {A(t)})' for k,(p,q,r,t) in enumerate(prs[:3])]
    ent.append('assert { '+' +. '.join(f'mulr {A(k)} (mulr {A(p)} {A(q)} -. mulr {A(r)} {A(t)})' for k,(p,q,r,t) in enumerate(prs[:3]))+f' = {D3} }}')
    out=[f'md idet ({A(p)} *. {A(q)} -. {A(r)} *. {A(t)})' for p,q,r,t in prs]
    order=[0,3,4,1,5,6,2,7,8]
    asr=[f'assert {{ @f64[inv+{k}] = idet *. ({A(p)} *. {A(q)} -. {A(r)} *. {A(t)}) }}' for k,(p,q,r,t) in enumerate(prs[j] for j in order)]
    return dict(requires=[dj('inv','9','vA','9'),D3+' <> 0.0'],w={'f64':'inv<=a<inv+9'},ensures=[e.split('->',1)[1] for e in ident(3,D3)],prelude=pre,
       ghost={'entry':ent,'exit':out+asr+[ex[0].split('then',1)[1].strip()]},keep=[f'@f64[{a}]=@@f64[{a}]' for a in ['vA']+[f'vA+{k}' for k in range(1,9)]])
CSD=r'''
  let ghost mlt (a b c: int) requires { 0 <= a < b /\ 0 <= c } ensures { a*c+c <= b*c } = assert { (b-a-1)*c >= 0 }
  predicate cpr (h0 h: map int real) (o i g: int)
  val ghost cprd (h0 h: map int real) (o i g: int) : unit ensures { cpr h0 h o i g <-> forall q. o <= q < o+g -> h[q] = h0[i+(q-o)] }
  let ghost cprf (h0 h1 h: map int real) (o i g: int) requires { cpr h0 h1 o i g } requires { forall q. o <= q < o+g -> h[q] = h1[q] } ensures { cpr h0 h o i g } = cprd h0 h1 o i g; cprd h0 h o i g
  predicate cp (h0 h: map int real) (o i g s r: int)
  val ghost cpd (h0 h: map int real) (o i g s r: int) : unit ensures { cp h0 h o i g s r <-> cpr h0 h (o+r*g) (i+r*s) g }
  let ghost cpi (h0 h: map int real) (o i g s r oo ii: int) requires { oo = o+r*g /\ ii = i+r*s } requires { cpr h0 h oo ii g } ensures { cp h0 h o i g s r } = cpd h0 h o i g s r
  let ghost cpf (h0 h1 h: map int real) (o i g s t: int) requires { 0 <= g /\ 0 <= t } requires { forall r. 0 <= r < t -> cp h0 h1 o i g s r } requires { forall q. o <= q < o+t*g -> h[q] = h1[q] } ensures { forall r. 0 <= r < t -> cp h0 h o i g s r }
   = for r_ = 0 to t-1 do invariant { forall r. 0 <= r < r_ -> cp h0 h o i g s r } mlt r_ t g; let ghost z = o+r_*g in assert { o <= z /\ z+g <= o+t*g }; cpd h0 h1 o i g s r_; cpd h0 h o i g s r_; cprf h0 h1 h z (i+r_*s) g done
'''
KO='forall q. (q<out0 \\/ out0+n0*g<=q) -> @f64[q]=@@f64[q]'
OSPEC['copy_strided']=dict(requires=['1<=g<=4294967295','1<=s','s*g<=4294967295','n*(s*g)<=9000000000000000','n*g<=9000000000000000','n=0 \\/ '+dj('out','n*g','in_','((n-1)*(s*g)+g)')],prelude=CSD,
   w={'f64':'out<=a<out+n*g'},ensures=['forall r. 0<=r<n -> cp @@f64 @f64 out in_ g (s*g) r'],
   loops={1:dict(inv=['0<=n<=n0','out=out0+(n0-n)','in_=in0+(n0-n)*s',KO,'forall r. 0<=r<n0-n -> cp @@f64 @f64 out0 in0 g (s0*g) r'],var='n'),
          2:dict(inv=['0<=n<=n0','s=s0*g','out=out0+(n0-n)*g','in_=in0+(n0-n)*s',KO,'forall r. 0<=r<n0-n -> cp @@f64 @f64 out0 in0 g (s0*g) r'],var='n')},
   ghost={'entry':['let ghost n0 = n','let ghost out0 = out','let ghost in0 = in_','let ghost s0 = s'],**{('enter',k):['let ghost hb = @f64','let ghost r = n0-n','let ghost ob = out','let ghost ib = in_','mlt r n0 g','(if r+1 < n0 then mlt r (n0-1) (s0*g))'] for k in(1,2)},**{('endbody',k):[f'assert {{ forall q. ob<=q<ob+g -> @f64[q] = @@f64[ib+(q-ob)] }}','cprd h0_f64 @f64 ob ib g','cpf h0_f64 hb @f64 out0 in0 g (s0*g) r','cpi h0_f64 @f64 out0 in0 g (s0*g) r ob ib','assert { (r+1)*g=r*g+g }','assert { (r+1)*(s0*g)=r*(s0*g)+s0*g }'] for k in(1,2)}})
OP={'mat_inv_3':mi3(),'bbox_2_tfm':tfm(2),'bbox_3_tfm':tfm(3)}
def axt(n):
    x=[f'@f64[x{"+%d"%d if d else ""}]' for d in range(n)]
    return x
RB={}
BT=r'''
  let ghost in1 (x lo hi r: real) requires { r = (x -. lo) *. (hi -. x) } ensures { lo <=. x <=. hi -> r >=. 0.0 } ensures { lo <=. hi -> r >=. 0.0 -> lo <=. x <=. hi }
   = if pure { x <. lo } then assert { lo <=. hi -> (lo -. x) *. (hi -. x) >. 0.0 } else if pure { x >. hi } then assert { lo <=. hi -> (x -. lo) *. (x -. hi) >. 0.0 } else assert { (x -. lo) *. (hi -. x) >=. 0.0 }
'''
def bx(n):
    mn=lambda d:f'@dbl_range_min[sub_obbox_{n}_x b+{d}]'; mx=lambda d:f'@dbl_range_max[sub_obbox_{n}_x b+{d}]'
    X=lambda d:f'@f64[x+{d}]' if d else '@f64[x]'
    ins=' /\\ '.join(f'{mn(d)}<=.{X(d)}<=.{mx(d)}' for d in range(n)); ok=' /\\ '.join(f'{mn(d)}<=.{mx(d)}' for d in range(n))
    ent=[f'in1 {X(d)} {mn(d)} {mx(d)} (({X(d)} -. {mn(d)}) *. ({mx(d)} -. {X(d)}))' for d in range(n)]
    return dict(prelude=BT,ensures=[f'({ins}) -> result>=.0.0',f'({ok}) -> result>=.0.0 -> ({ins})'],ghost={'entry':ent})
BT2=BT+r'''
  let ghost in2 (r v: real) requires { v = (r +. 1.0) *. (1.0 -. r) } ensures { -. 1.0 <=. r <=. 1.0 -> v >=. 0.0 } ensures { v >=. 0.0 -> -. 1.0 <=. r <=. 1.0 } = in1 r (-. 1.0) 1.0 ((r -. (-. 1.0)) *. (1.0 -. r))
'''
def bt(n):
    mn=lambda d:f'@dbl_range_min[sub_obbox_{n}_x b+{d}]'; mx=lambda d:f'@dbl_range_max[sub_obbox_{n}_x b+{d}]'
    X=lambda d:f'@f64[x+{d}]' if d else '@f64[x]'
    C=lambda d:f'@f64[sub_obbox_{n}_c0 b+{d}]' if d else f'@f64[sub_obbox_{n}_c0 b]'
    A=lambda k:f'@f64[sub_obbox_{n}_A b+{k}]' if k else f'@f64[sub_obbox_{n}_A b]'
    R=lambda i:'('+' +. '.join(f'{A(i*n+d)} *. ({X(d)} -. {C(d)})' for d in range(n))+')'
    ins=' /\\ '.join(f'{mn(d)}<=.{X(d)}<=.{mx(d)}' for d in range(n)); ok=' /\\ '.join(f'{mn(d)}<=.{mx(d)}' for d in range(n))
    ori=' /\\ '.join(f'-. 1.0 <=. {R(d)} <=. 1.0' for d in range(n))
    ent=[f'in2 {R(d)} (({R(d)} +. 1.0) *. (1.0 -. {R(d)}))' for d in range(n)]
    return dict(prelude=BT2,ensures=[f'({ins}) -> ({ori}) -> result>=.0.0',f'({ok}) -> result>=.0.0 -> ({ins})',f'({ok}) -> result>=.0.0 -> ({ori})'],ghost={'entry':ent})
TSPEC={'obbox_test_2':bt(2),'obbox_test_3':bt(3),'obbox_axis_test_2':bx(2),'obbox_axis_test_3':bx(3)}
def units():
    return [dict(file='src/lob_bnd.c',name='lob_bnd.c',specs=SPEC,real='op',prelude=''),
            dict(file='src/obbox.c',name='obbox.c',specs=OSPEC,real='total'),
            dict(file='src/findpts.c',name='obbox.h',specs=TSPEC,real='total'),
            dict(file='src/obbox.c',name='obbox.c[tfm]',specs=OP,real='op')]
