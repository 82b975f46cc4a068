/* Sorting: C08 (value sort), C09 (permutation sort), C10 (records). mode 8, 9, 10; single process */
#include "common.h"
int harness_np(uint64_t seed, int tier, int mode, int maxnp) { return 1; }
typedef unsigned long long ull;
enum { K_UI, K_ULL, K_DBL, K_FLT };
static const size_t ks[4]={sizeof(unsigned),sizeof(ull),sizeof(double),sizeof(float)};
static const char *kn[4]={"unsigned","unsigned long long","double","float"};
static int pick_n(struct rng *r, int tier)
{ switch(rng_i(r,0,9)) { case 0: return rng_i(r,0,3); case 1: case 2: case 3: return rng_i(r,2,12); case 4: case 5: return rng_i(r,2,70);
  case 6: return rng_i(r,250,262); case 7: return rng_i(r,100,300); default: return rng_i(r,2,tier?2000:700); } }
static void gen(struct rng *r, int style, int kind, void *p, int i, int n)
{ ull v; double d;
  switch(style) { case 0: v=rng_next(r); break; case 1: v=rng_n(r,3); break; case 2: v=0; break; case 3: v=(ull)i; break; case 4: v=(ull)(n-i); break;
    case 5: v=rng_n(r,4)<<(8*(kind==K_UI?3:7)); break; case 6: v=rng_n(r,5)<<8; break; case 7: v=rng_n(r,2)?~0ull:rng_n(r,300); break;
    case 8: v=(rng_n(r,4)<<24)|(rng_n(r,3)<<16)|rng_n(r,2); break; case 9: v=rng_n(r,3)<<31; break; case 10: v=rng_n(r,n+1); break; default: v=rng_n(r,256); break; }
  switch(kind) { case K_UI: { unsigned x=(unsigned)v; memcpy(p,&x,4); break; } case K_ULL: memcpy(p,&v,8); break;
    default: if(style==0) d=((double)rng_i(r,-1000000,1000000))*ldexp(1.0,rng_i(r,-60,60)); else d=(double)(long long)(v&0xffffffffull)*(rng_i(r,0,1)?1:-1); if(style==7&&rng_i(r,0,3)==0) d=rng_i(r,0,1)?(kind==K_FLT?FLT_MAX:DBL_MAX):-INFINITY; if(style==2&&rng_i(r,0,1)) d=-0.0;
    if(kind==K_DBL) memcpy(p,&d,8); else { float f=(float)d; memcpy(p,&f,4); } } }
static int less(int kind, const void *a, const void *b)
{ switch(kind) { case K_UI: { unsigned x,y; memcpy(&x,a,4),memcpy(&y,b,4); return x<y; } case K_ULL: { ull x,y; memcpy(&x,a,8),memcpy(&y,b,8); return x<y; }
  case K_DBL: { double x,y; memcpy(&x,a,8),memcpy(&y,b,8); return x<y; } default: { float x,y; memcpy(&x,a,4),memcpy(&y,b,4); return x<y; } } }
static int cmpk; static size_t cmps; static int rawcmp(const void *a,const void *b) { return memcmp(a,b,cmps); }
static void sv(int k, void *o, const void *a, uint n, unsigned st, buffer *b)
{ switch(k) { case K_UI: sortv_ui(o,a,n,st,b); break; case K_ULL: sortv_ull(o,a,n,st,b); break; case K_DBL: sortv_double(o,a,n,st,b); break; default: sortv_float(o,a,n,st,b); } }
static uint *sp(int k, buffer *b, int ps, const void *a, uint n, unsigned st)
{ switch(k) { case K_UI: return sortp_ui(b,ps,a,n,st); case K_ULL: return sortp_ull(b,ps,a,n,st); case K_DBL: return sortp_double(b,ps,a,n,st); default: return sortp_float(b,ps,a,n,st); } }
static void stable_perm(int k, const char *a, unsigned st, const uint *init, uint *out, int n)
{ /* binary-insertion oracle: stable w.r.t. init */
  int i,j; for(i=0;i<n;++i) { uint x=init[i]; int lo=0,hi=i; while(lo<hi) { int m=(lo+hi)/2; if(less(k,a+(size_t)x*st,a+(size_t)out[m]*st)) hi=m; else lo=m+1; } for(j=i;j>lo;--j) out[j]=out[j-1]; out[lo]=x; } }
struct rec1 { ull a; uint b; double d; float f; uint tag; };
struct rec2 { uint b; uint tag; };
static buffer buf=null_buffer;
void harness_case(struct simcase *c)
{ struct rng r={c->seed}; int i; 
  if(rng_i(&r,0,3)==0) buffer_free(&buf), buf.ptr=0,buf.n=buf.max=0;
  if(c->mode==8) { int k=rng_i(&r,0,3), n=pick_n(&r,c->tier), style=rng_i(&r,0,11), inpl=rng_i(&r,0,2)==0; unsigned st=inpl?ks[k]:ks[k]*rng_i(&r,1,3); char *A=xa((size_t)n*st),*ref=xa((size_t)n*ks[k]),*o; 
    sim_note("sortv %s n=%d style=%d in-place=%d stride=%u ",kn[k],n,style,inpl,st);
    for(i=0;i<n;++i) gen(&r,style,k,A+(size_t)i*st,i,n), memcpy(ref+i*ks[k],A+(size_t)i*st,ks[k]);
    o=inpl?A:xa(n*ks[k]);
    sv(k,o,(void*)A,n,st,&buf);
    for(i=1;i<n;++i) CHECK(!less(k,o+i*ks[k],o+(i-1)*ks[k]),"sortv %s: position %d is smaller than its predecessor (n=%d)",kn[k],i,n);
    { char *x=xa(n*ks[k]); memcpy(x,o,n*ks[k]); cmps=ks[k]; qsort(x,n,ks[k],rawcmp); qsort(ref,n,ks[k],rawcmp); 
      if(k>=K_DBL&&style==2) { } else CHECK(!memcmp(x,ref,n*ks[k]),"sortv %s: output is not a rearrangement of the input (n=%d)",kn[k],n); free(x); }
    sim_count(n>=256?"radix":"small",1);
    if(!inpl) free(o); free(A); free(ref); }
  else if(c->mode==9) { int n=pick_n(&r,c->tier), nk=rng_i(&r,1,3), j; uint *want=XA(uint,n), *tmp=XA(uint,n), *perm=0; int start=rng_i(&r,0,1);
    for(i=0;i<n;++i) want[i]=i;
    if(start) { buffer_reserve(&buf,(n?n:1)*sizeof(uint)); for(i=n-1;i>0;--i) { uint x=rng_n(&r,i+1),t=want[i]; want[i]=want[x]; want[x]=t; } memcpy(buf.ptr,want,n*sizeof(uint)); }
    for(j=0;j<nk;++j) { int k=rng_i(&r,0,3),style=rng_i(&r,0,11); unsigned st=ks[k]*rng_i(&r,1,3); char *A=xa((size_t)n*st),*B=xa((size_t)n*st); 
      sim_note("sortp %s n=%d style=%d start=%d stride=%u ",kn[k],n,style,start||j,st);
      memset(A,0,(size_t)n*st);
      for(i=0;i<n;++i) gen(&r,style,k,A+(size_t)i*st,i,n); memcpy(B,A,(size_t)n*st);
      perm=sp(k,&buf,start||j,A,n,st); stable_perm(k,A,st,want,tmp,n); memcpy(want,tmp,n*sizeof(uint));
      CHECK(perm==buf.ptr,"sortp does not return the start of the buffer");
      CHECK(!memcmp(A,B,(size_t)n*st),"sortp changed its keys");
      for(i=0;i<n;++i) CHECK(perm[i]==want[i],"sortp %s (key %d of %d): position %d holds %u, a stable sort puts %u there (n=%d)",kn[k],j,nk,i,perm[i],want[i],n);
      free(A); free(B); }
    { uint *inv=XA(uint,n); if(perm) sarray_perm_invert(inv,perm,n); for(i=0;i<n;++i) CHECK(inv[perm[i]]==(uint)i,"sarray_perm_invert is not the inverse at %d",i); free(inv); }
    sim_count(n>=256?"radix":"small",1); free(want); free(tmp); }
  else { int which=rng_i(&r,0,6), n=pick_n(&r,c->tier), s1=rng_i(&r,0,11),s2=rng_i(&r,0,11),s3=rng_i(&r,1,11),s4=rng_i(&r,1,11); struct rec1 *A=XA(struct rec1,n),*B=XA(struct rec1,n); uint *w=XA(uint,n),*t=XA(uint,n); 
    sim_note("sarray_sort kind=%d n=%d styles %d %d %d %d ",which,n,s1,s2,s3,s4); memset(A,0,n*sizeof *A);
    if(which==0) { /* arbitrary record sizes, explicit permutation */
      size_t sz=rng_i(&r,1,50), al=1; char *X=xa(n*sz),*Y=xa(n*sz); uint *p=XA(uint,n); void *wk=xa(sz); for(i=0;i<n;++i) p[i]=i; for(i=n-1;i>0;--i) { uint x=rng_n(&r,i+1),q=p[i]; p[i]=p[x]; p[x]=q; } (void)al;
      for(i=0;i<(int)(n*sz);++i) X[i]=(char)rng_next(&r); memcpy(Y,X,n*sz); memcpy(w,p,n*sizeof(uint));
      sim_note("size=%zu ",sz);
      if(rng_i(&r,0,1)) { sarray_permute_(sz,X,n,p,wk); CHECK(!memcmp(p,w,n*sizeof(uint)),"sarray_permute changed the permutation (n=%d)",n); } else { buffer b=null_buffer; size_t alg=1; if(sz%8==0) alg=8; else if(sz%4==0) alg=4; buffer_reserve(&b,n*sizeof(uint)+1); memcpy(b.ptr,p,n*sizeof(uint)); sarray_permute_buf_(alg,sz,X,n,&b); CHECK(!memcmp(b.ptr,w,n*sizeof(uint)),"sarray_permute_buf changed the permutation (n=%d)",n); buffer_free(&b); }
      for(i=0;i<n;++i) CHECK(!memcmp(X+i*sz,Y+w[i]*sz,sz),"sarray_permute: record %d is not the one the permutation names (record size %zu, n=%d)",i,sz,n);
      free(X),free(Y),free(p),free(wk); }
    else {
    for(i=0;i<n;++i) { gen(&r,s1,K_ULL,&A[i].a,i,n); gen(&r,s2,K_UI,&A[i].b,i,n); gen(&r,s3,K_DBL,&A[i].d,i,n); gen(&r,s4,K_FLT,&A[i].f,i,n); A[i].tag=i; } memcpy(B,A,n*sizeof *A);
    for(i=0;i<n;++i) w[i]=i;
#define BY(k,f) (stable_perm(k,(char*)B+offsetof(struct rec1,f),sizeof(struct rec1),w,t,n),memcpy(w,t,n*sizeof(uint)))
    switch(which) {
    case 1: sarray_sort(struct rec1,A,n,b,0,&buf); BY(K_UI,b); break;
    case 2: sarray_sort(struct rec1,A,n,a,1,&buf); BY(K_ULL,a); break;
    case 3: sarray_sort_2(struct rec1,A,n,a,1,b,0,&buf); BY(K_UI,b); BY(K_ULL,a); break;
    case 4: sarray_sort_3(struct rec1,A,n,b,0,d,3,a,1,&buf); BY(K_ULL,a); BY(K_DBL,d); BY(K_UI,b); break;
    case 5: sarray_sort_4(struct rec1,A,n,f,2,b,0,a,1,d,3,&buf); BY(K_DBL,d); BY(K_ULL,a); BY(K_UI,b); BY(K_FLT,f); break;
    default: sarray_sort_2(struct rec1,A,n,b,0,f,2,&buf); BY(K_FLT,f); BY(K_UI,b); break; }
    for(i=0;i<n;++i) CHECK(!memcmp(&A[i],&B[w[i]],sizeof *A),"sarray_sort: position %d holds record %u, a stable lexicographic sort puts %u there (n=%d)",i,A[i].tag,B[w[i]].tag,n); }
    free(A),free(B),free(w),free(t); sim_count("records_sorted",n); }
}
