/* Combination kernels, identities and the monoid laws: C06.  mode 6 (one process) */
#include "common.h"
#include "gs_local.h"
int harness_np(uint64_t s,int t,int m,int mx) { return 1; }
static const size_t dsz[]={sizeof(double),sizeof(float),sizeof(int),sizeof(long),sizeof(long long)};
static const char *opn[]={"add","mul","min","max","bpr"},*domn[]={"double","float","int","long","long_long"};
static unsigned bpr(unsigned x, unsigned y) { if(!x) return y; if(!y) return x; while(x!=y) if(x<y) y>>=1; else x>>=1; return x; }
/* reference combination, written with exact integer / IEEE arithmetic */
#define REFI(T,U) static T ref_##T(int op,T a,T b) { switch(op) { case gs_add: return (T)((U)a+(U)b); case gs_mul: return (T)((U)a*(U)b); case gs_min: return b<a?b:a; case gs_max: return b>a?b:a; default: return (T)bpr((unsigned)a,(unsigned)b); } }
#define REFF(T) static T ref_##T(int op,T a,T b) { switch(op) { case gs_add: return a+b; case gs_mul: return a*b; case gs_min: return b<a?b:a; case gs_max: return b>a?b:a; default: return (T)bpr((unsigned)a,(unsigned)b); } }
typedef long long long_long_; 
REFF(double) REFF(float) REFI(int,unsigned) REFI(long,unsigned long) REFI(long_long,unsigned long long)
static void ref(int dom,int op,void *p,size_t i,const void *q,size_t j)
{ switch(dom) {
#define K(T) case gs_##T: ((T*)p)[i]=ref_##T(op,((T*)p)[i],((const T*)q)[j]); break;
  K(double) K(float) K(int) K(long) K(long_long)
#undef K
  } }
static int same(int dom,const void *p,size_t i,const void *q,size_t j)
{ switch(dom) {
#define K(T) case gs_##T: return ((const T*)p)[i]==((const T*)q)[j];
  K(double) K(float) K(int) K(long) K(long_long)
#undef K
  } return 0; }
static void rnd(struct rng *r,int dom,int op,void *p,size_t i,int style)
{ long long v; double d;
  if(op==gs_bpr) { int b; unsigned u=(unsigned)rng_next(r); b=dom==gs_float?24:dom==gs_int?31:32; u>>=32-b; if(rng_i(r,0,1)) u>>=rng_i(r,0,31); if(style==1) u=3u>>rng_i(r,0,2);
    switch(dom) {
#define K(T) case gs_##T: ((T*)p)[i]=(T)u; break;
    K(double) K(float) K(int) K(long) K(long_long)
#undef K
    } return; }
  if(dom>=gs_int) { int bits=dsz[dom]*8; v=(long long)rng_next(r);
    if(op==gs_add) v>>=64-bits+1; else if(op==gs_mul) v>>=64-bits/2+1; else v>>=64-bits;
    if(style==1) v=rng_i(r,-2,2); else if(style==2&&rng_i(r,0,1)&&(op==gs_min||op==gs_max)) v=rng_i(r,0,1)?(bits==32?INT_MIN:LLONG_MIN):(bits==32?INT_MAX:LLONG_MAX);
    switch(dom) { case gs_int: ((int*)p)[i]=(int)v; break; case gs_long: ((long*)p)[i]=v; break; default: ((long long*)p)[i]=v; } return; }
  d=style==1?rng_i(r,-3,3):(rng_d(r)-.5)*pow(10,rng_i(r,-12,12));
  if(style==2&&(op==gs_min||op==gs_max)) d=rng_i(r,0,1)?(dom==gs_float?FLT_MAX:DBL_MAX):(dom==gs_float?-FLT_MAX:-DBL_MAX);
  if(dom==gs_double) ((double*)p)[i]=d; else ((float*)p)[i]=(float)d; }
static void *clone(const void *p,size_t n) { void *q=xa(n); if(n) memcpy(q,p,n); return q; }

/* a map over entries 0..n-1 of one array and 0..m-1 of the other: rows (i; j...) with every right
   hand entry of a scatter used once, rows never empty */
static uint *mk_map(struct rng *r,int rows,int n_i,int n_j,int once_j,int once_i,int *used)
{ uint *map=XA(uint,rows*(2+6)+1),*p=map; int k,l; char si[64]={0},sj[256]={0};
  for(k=0;k<rows;++k) { int i=rng_i(r,0,n_i-1),c=rng_i(r,1,rng_i(r,0,3)?3:6),any=0,t;
    for(t=0;once_i&&si[i]&&t<n_i;++t) i=(i+1)%n_i; if(once_i&&si[i]) break;
    { uint *p0=p; *p++=i; for(l=0;l<c;++l) { int j=rng_i(r,0,n_j-1); for(t=0;once_j&&sj[j]&&t<n_j;++t) j=(j+1)%n_j; if(once_j&&sj[j]) break; sj[j]=1; *p++=j; any=1; }
      if(!any) { p=p0; break; } si[i]=1; *p++=UINT_MAX; } }
  *p++=UINT_MAX; *used=p-map; return clone(map,sizeof(uint)*(p-map)); }

void harness_case(struct simcase *c)
{ struct rng r={c->seed}; int dom=rng_i(&r,0,4),op=rng_i(&r,0,4),what=rng_i(&r,0,14),style=rng_i(&r,0,2); size_t s=dsz[dom]; int i,k,l,vn=rng_i(&r,1,5),n=rng_i(&r,0,20),ni=rng_i(&r,1,12),nj=rng_i(&r,1,14),rows=rng_i(&r,0,5),mu;
  sim_note("case %d dom=%s op=%s vn=%d n=%d ni=%d nj=%d rows=%d ",what,domn[dom],opn[op],vn,n,ni,nj,rows); sim_count(opn[op],1);
  if(what<=1) { /* array kernels */
    char *a=xa(s*n),*b=xa(s*n),*e; for(i=0;i<n;++i) rnd(&r,dom,op,a,i,style),rnd(&r,dom,op,b,i,style);
    e=clone(a,s*n); for(i=0;i<n;++i) ref(dom,op,e,i,b,i);
    gs_gather_array(a,b,n,dom,op); for(i=0;i<n;++i) CHECK(same(dom,a,i,e,i),"array combination: element %d is wrong",i);
    gs_init_array(a,n,dom,op); { char *f=clone(a,s*n); gs_gather_array(a,b,n,dom,op); for(i=0;i<n;++i) CHECK(same(dom,a,i,b,i),"combining the identity of %s with element %d does not give the element",opn[op],i);
      { char *g=clone(b,s*n); gs_gather_array(g,f,n,dom,op); for(i=0;i<n;++i) CHECK(same(dom,g,i,b,i),"combining element %d with the identity of %s does not give the element",i,opn[op]); free(g); } free(f); }
    free(a),free(b),free(e); return; }
  if(what==2) { /* monoid laws on exactly representable values */
    char *a=xa(s),*b=xa(s),*x=xa(s),*y=xa(s),*z=xa(s); int st=dom<gs_int&&op<=gs_mul?1:style;
    rnd(&r,dom,op,a,0,st),rnd(&r,dom,op,b,0,st),rnd(&r,dom,op,z,0,st); if(op==gs_mul||op==gs_add) st=1, rnd(&r,dom,op,a,0,1),rnd(&r,dom,op,b,0,1),rnd(&r,dom,op,z,0,1);
    memcpy(x,a,s),gs_gather_array(x,b,1,dom,op); memcpy(y,b,s),gs_gather_array(y,a,1,dom,op); CHECK(same(dom,x,0,y,0),"%s on %s is not commutative",opn[op],domn[dom]);
    gs_gather_array(x,z,1,dom,op); memcpy(y,b,s),gs_gather_array(y,z,1,dom,op); { char *w=clone(a,s); gs_gather_array(w,y,1,dom,op); CHECK(same(dom,x,0,w,0),"%s on %s is not associative",opn[op],domn[dom]); free(w); }
    free(a),free(b),free(x),free(y),free(z); return; }
  { int is_vec=0,many_in=0,many_out=0,kind; /* kind 0 gather 1 scatter 2 init */ char *in[6],*out[6],*ref_[6]; uint *map; int nin,nout; void *po[6]; const void *pi[6]; 
    int inplace=0;
    switch(what) { case 3: kind=0; vn=1; inplace=rng_i(&r,0,1); break; case 4: kind=1; vn=1; inplace=rng_i(&r,0,1); break; case 5: kind=2; vn=1; break;
      case 6: kind=0,is_vec=1; inplace=rng_i(&r,0,1); break; case 7: kind=1,is_vec=1; inplace=rng_i(&r,0,1); break; case 8: kind=2,is_vec=1; break;
      case 9: kind=0,many_in=many_out=1; inplace=rng_i(&r,0,1); break; case 10: kind=1,many_in=many_out=1; inplace=rng_i(&r,0,1); break; case 11: kind=2,many_out=1; break;
      case 12: kind=0,many_out=1; break; case 13: kind=1,many_in=1; break; default: kind=1,many_out=1; break; }
    /* in place: the i and j entries are distinct halves of one array, as in the library's own use */
    map=mk_map(&r,rows,ni,nj,kind==1,kind!=1,&mu);
    if(kind==2) { uint *q=map; for(k=0;map[k]!=UINT_MAX;) { *q++=map[k]; while(map[k]!=UINT_MAX) ++k; ++k; } *q=UINT_MAX; mu=q-map+1; }
    if(inplace) { uint *q=map; while(*q!=UINT_MAX) { ++q; while(*q!=UINT_MAX) *q+=ni,++q; ++q; } }
    nin=kind==1?ni:nj; nout=kind==1?nj:ni; if(inplace) nin=nout=ni+nj;
    /* gather: out[i] combined with in[j]; scatter: out[j]=in[i]; init: out[i]=identity */
    for(k=0;k<vn;++k) { int cin=many_in?1:vn,cout=many_out?1:vn; in[k]=0,out[k]=0;
      if((many_in||k==0)&&kind!=2) { in[k]=xa(s*nin*cin); for(i=0;i<nin*cin;++i) rnd(&r,dom,op,in[k],i,style); }
      if(many_out||k==0) { if(inplace) out[k]=in[k]; else { out[k]=xa(s*nout*cout); for(i=0;i<nout*cout;++i) rnd(&r,dom,op,out[k],i,style); } ref_[k]=clone(out[k],s*nout*cout); }
      po[k]=out[k],pi[k]=in[k]; }
    { uint *q=map; while(*q!=UINT_MAX) { uint ii=*q++; 
        if(kind==2) { for(l=0;l<vn;++l) { char *id=xa(s); gs_init_array(id,1,dom,op); memcpy(ref_[many_out?l:0]+s*(many_out?ii:ii*vn+l),id,s); free(id); } continue; }
        for(;*q!=UINT_MAX;++q) for(l=0;l<vn;++l) { char *O=many_out?ref_[l]:ref_[0]; const char *I=many_in?in[l]:in[0]; if(inplace) I=ref_[many_in?l:0];
          size_t oi=kind==0?ii:*q, xi=kind==0?*q:ii; oi=many_out?oi:oi*vn+l, xi=many_in?xi:xi*vn+l;
          if(kind==0) ref(dom,op,O,oi,I,xi); else memcpy(O+s*oi,I+s*xi,s); }
        ++q; } }
    switch(what) { case 3: gs_gather(out[0],in[0],1,map,dom,op); break; case 4: gs_scatter(out[0],in[0],1,map,dom); break; case 5: gs_init(out[0],1,map,dom,op); break;
      case 6: gs_gather_vec(out[0],in[0],vn,map,dom,op); break; case 7: gs_scatter_vec(out[0],in[0],vn,map,dom); break; case 8: gs_init_vec(out[0],vn,map,dom,op); break;
      case 9: gs_gather_many(po,pi,vn,map,dom,op); break; case 10: gs_scatter_many(po,pi,vn,map,dom); break; case 11: gs_init_many(po,vn,map,dom,op); break;
      case 12: gs_gather_vec_to_many(po,in[0],vn,map,dom,op); break; case 13: gs_scatter_many_to_vec(out[0],pi,vn,map,dom); break; default: gs_scatter_vec_to_many(po,in[0],vn,map,dom); break; }
    for(k=0;k<(many_out?vn:1);++k) for(i=0;i<nout*(many_out?1:vn);++i) CHECK(same(dom,out[k],i,ref_[k],i),"kernel %d: array %d element %d is wrong",what,k,i);
    for(k=0;k<vn;++k) { if(in[k]) free(in[k]); if(out[k]&&!inplace) free(out[k]); if(many_out||k==0) free(ref_[k]); } free(map); }
}
