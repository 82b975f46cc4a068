/* Growable arrays, allocation wrappers, alignment: C14.  mode 14 (one process) */
#include "common.h"
int harness_np(uint64_t s,int t,int m,int mx) { return 1; }
struct odd { char c[3]; }; struct big { double d[5]; int i; };
static const size_t SZ[]={1,3,4,8,sizeof(struct big)};
static unsigned char pat(uint64_t s,size_t i) { struct rng r={s*1315423911u+i}; return (unsigned char)rng_next(&r); }
static void reserve(int t,struct array *a,size_t n) { void *p=0; switch(t) { case 0: p=array_reserve(char,a,n); break; case 1: p=array_reserve(struct odd,a,n); break; case 2: p=array_reserve(uint,a,n); break; case 3: p=array_reserve(double,a,n); break; default: p=array_reserve(struct big,a,n); } CHECK(p==a->ptr,"reserve returned a pointer other than the storage"); }
static void rsz(int t,struct array *a,size_t n) { switch(t) { case 0: array_resize(char,a,n); break; case 1: array_resize(struct odd,a,n); break; case 2: array_resize(uint,a,n); break; case 3: array_resize(double,a,n); break; default: array_resize(struct big,a,n); } }
static void ini(int t,struct array *a,size_t n) { switch(t) { case 0: array_init(char,a,n); break; case 1: array_init(struct odd,a,n); break; case 2: array_init(uint,a,n); break; case 3: array_init(double,a,n); break; default: array_init(struct big,a,n); } }
static void cat(int t,struct array *a,const void *s,size_t n) { switch(t) { case 0: array_cat(char,a,s,n); break; case 1: array_cat(struct odd,a,s,n); break; case 2: array_cat(uint,a,s,n); break; case 3: array_cat(double,a,s,n); break; default: array_cat(struct big,a,s,n); } }
struct oom { int what; size_t n; struct array a; };
static void oom(void *v) { struct oom *o=v; void *volatile p=0; switch(o->what) { case 0: p=tmalloc(double,o->n); break; case 1: p=tcalloc(double,o->n); break; case 2: p=trealloc(double,0,o->n); break; case 3: array_reserve(double,&o->a,o->n); break; default: array_init(double,&o->a,o->n); } (void)p; }
static void *volatile sink;
static void touch(const struct array *a,size_t size) { if(a->max) { volatile char *p=a->ptr; char x=p[0],y=p[a->max*size-1]; p[0]=x,p[a->max*size-1]=y; } }
void harness_case(struct simcase *c)
{ struct rng r={c->seed}; int step,ns=rng_i(&r,1,25),t=rng_i(&r,0,4); struct array a=null_array; size_t size=SZ[t],len=0,cap=0,i; unsigned char *ref=malloc(1<<20);
  if(rng_i(&r,0,3)==0) { size_t n=rng_i(&r,0,3)?rng_n(&r,50):0; ini(t,&a,n); CHECK(a.n==0&&a.max==n,"array_init: n=%zu max=%zu after a request for %zu",a.n,a.max,n); touch(&a,size); cap=n; }
  for(step=0;step<ns;++step) { int w=rng_i(&r,0,4); size_t n=rng_i(&r,0,3)?rng_n(&r,12):rng_n(&r,400); sim_note("op%d(%zu) ",w,n);
    switch(w) {
    case 0: case 1: reserve(t,&a,n); CHECK(a.max>=n,"array_reserve(%zu): capacity %zu",n,a.max); CHECK(a.max>=cap,"array_reserve shrank the capacity from %zu to %zu",cap,a.max);
      if(n>cap) CHECK(a.max>=cap+cap/2,"array_reserve(%zu): capacity %zu grew only to %zu (not geometric)",n,cap,a.max); else CHECK(a.max==cap,"array_reserve(%zu): capacity changed from %zu to %zu although sufficient",n,cap,a.max);
      CHECK(a.n==len,"array_reserve changed the length from %zu to %zu",len,a.n); break;
    case 2: if(n<len) n=len; if(n==0) n=1; rsz(t,&a,n); CHECK(a.max==n,"array_resize(%zu): capacity %zu",n,a.max); CHECK(a.n==len,"array_resize changed the length"); break;
    default: { unsigned char *s; if(len+n>10000) break; s=xa(n*size); for(i=0;i<n*size;++i) s[i]=pat(c->seed,len*size+i); if(n==0&&a.ptr==0) { free(s); break; }
      cat(t,&a,s,n); len+=n; CHECK(a.n==len,"array_cat: length %zu, expected %zu",a.n,len); CHECK(a.max>=len,"array_cat: capacity %zu below length %zu",a.max,len); free(s); } }
    touch(&a,size); cap=a.max;
    if(len<=cap) for(i=0;i<len*size;++i) CHECK(((unsigned char*)a.ptr)[i]==pat(c->seed,i),"byte %zu of %zu lost after growth",i,len*size); }
  array_free(&a); (void)ref; free(ref);
  /* allocation wrappers */
  { size_t n=rng_n(&r,100); double *p=tmalloc(double,n),*q=tcalloc(double,n); for(i=0;i<n;++i) { CHECK(q[i]==0,"tcalloc memory is not zero"); p[i]=i; } { size_t m=rng_n(&r,150); if(m==0) m=1; p=trealloc(double,p,m); for(i=0;i<m;++i) { if(i<n) CHECK(p[i]==i,"trealloc lost element %zu",i); p[i]=i; } } free(p),free(q); }
  { struct oom o; o.what=rng_i(&r,0,4); o.n=((size_t)1<<rng_i(&r,50,59))+rng_n(&r,99); o.a.ptr=0,o.a.n=o.a.max=0; CHECK(sim_expect_exit(oom,&o),"an allocation of %zu doubles that cannot be satisfied (wrapper %d) returned",o.n,o.what); sim_count("allocation_failures",1); }
  { size_t al=(size_t)1<<rng_i(&r,0,6),n=rng_n(&r,1000),x=align_as_(al,n); CHECK(x>=n&&x<n+al&&x%al==0,"align_as(%zu,%zu) is %zu",al,n,x); al=rng_i(&r,1,40); x=align_as_(al,n); CHECK(x>=n&&x<n+al&&x%al==0,"align_as(%zu,%zu) is %zu",al,n,x); 
    { char *base=xa(4096); CHECK((char*)align_ptr(double,base,n)-base==(ptrdiff_t)((n+7)/8*8),"align_ptr(double,%zu)",n); CHECK((char*)align_ptr(uint,base,n)-base==(ptrdiff_t)((n+3)/4*4),"align_ptr(uint,%zu)",n); CHECK((char*)align_ptr(struct big,base,n)-base==(ptrdiff_t)((n+7)/8*8),"align_ptr(struct,%zu)",n); CHECK((char*)align_ptr(struct odd,base,n)-base==(ptrdiff_t)n,"align_ptr(char[3],%zu)",n); free(base); } }
}
