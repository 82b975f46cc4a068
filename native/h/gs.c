/* Gather-scatter: executable form of the contracts of C01 (symmetric), C02 (flags,
   transpose), C03 (vec/many), C04 (non-blocking), C05 (unique).
   mode: 1 symmetric, 2 flagged, 3 vec/many, 4 non-blocking, 5 unique */
#include "common.h"

#define MAXN 40
#define NPMAX 32
struct prob { int np; int n[NPMAX]; slong id[NPMAX][MAXN]; };

static int pick_np(struct rng *r, int tier, int maxnp)
{ int k=rng_i(r,0,9), np;
  if(k<1) np=1; else if(k<8) np=rng_i(r,2,6); else np=rng_i(r,2,maxnp);
  return np>maxnp?maxnp:np; }
#ifndef GS_ORACLE_ONLY
int harness_np(uint64_t seed, int tier, int mode, int maxnp) { struct rng r={seed}; return pick_np(&r,tier,maxnp); }
#endif

static void make_problem(struct rng *r, struct prob *p, int np, int flags)
{ int i,k, pool=rng_i(r,1,14); slong ids[16]; int style=rng_i(r,0,5); int dens=rng_i(r,0,3);
  p->np=np;
  for(k=0;k<pool;++k) switch(style) {
    case 0: ids[k]=k+1; break;
    case 1: ids[k]=rng_i(r,1,200); break;
    case 2: ids[k]=(slong)((rng_next(r)>>2)+1); break;
    case 3: ids[k]=((slong)rng_i(r,1,4)*(1ll<<32))+rng_i(r,0,3); break;   /* differ only above bit 31 */
    case 4: ids[k]=(slong)rng_i(r,1,6)*np; break;                    /* all on one work process */
    default: ids[k]=LLONG_MAX-rng_i(r,0,20); break; }
  for(i=0;i<np;++i) { int j;
    p->n[i]=rng_i(r,0,7)==0?0:rng_i(r,1,rng_i(r,0,9)==0?MAXN:12);
    for(j=0;j<p->n[i];++j) {
      slong v=ids[rng_n(r,pool)];
      if(dens==0&&rng_i(r,0,2)==0) v=0; else if(rng_i(r,0,9)==0) v=0;
      if(flags&&rng_i(r,0,flags)==0) v=-v;
      p->id[i][j]=v; } } }

static void note_problem(const struct prob *p, int me)
{ int i,j; if(me) return;
  sim_note("ids=["); for(i=0;i<p->np;++i) { sim_note("%s[",i?",":""); for(j=0;j<p->n[i];++j) sim_note("%s%lld",j?",":"",(long long)p->id[i][j]); sim_note("]"); } sim_note("] "); }

/* values: held as long long in the oracle; every domain can represent them exactly */
static size_t dsize(int dom) { static const size_t s[]={sizeof(double),sizeof(float),sizeof(int),sizeof(long),sizeof(long long)}; return s[dom]; }
static void put(void *a, int dom, size_t i, long long v)
{ switch(dom) { case gs_double: ((double*)a)[i]=v; break; case gs_float: ((float*)a)[i]=v; break;
  case gs_int: ((int*)a)[i]=v; break; case gs_long: ((long*)a)[i]=v; break; default: ((long long*)a)[i]=v; } }
static int is(const void *a, int dom, size_t i, long long v)
{ switch(dom) { case gs_double: return ((double*)a)[i]==(double)v; case gs_float: return ((float*)a)[i]==(float)v;
  case gs_int: return ((int*)a)[i]==(int)v; case gs_long: return ((long*)a)[i]==v; default: return ((long long*)a)[i]==v; } }
static double get(const void *a, int dom, size_t i)
{ switch(dom) { case gs_double: return ((double*)a)[i]; case gs_float: return ((float*)a)[i];
  case gs_int: return ((int*)a)[i]; case gs_long: return ((long*)a)[i]; default: return (double)((long long*)a)[i]; } }
/* the mathematical value of the reduction; have=0: the empty reduction (the identity) */
static long long bpr(long long a, long long b)
{ unsigned x=(unsigned)a,y=(unsigned)b; if(!x) return y; if(!y) return x; while(x!=y) if(x<y) y>>=1; else x>>=1; return x; }
static long long red(int op, long long a, long long b)
{ switch(op) { case gs_add: return a+b; case gs_mul: return a*b; case gs_min: return a<b?a:b; case gs_max: return a>b?a:b; default: return bpr(a,b); } }
static int is_identity(const void *a, int dom, size_t i, int op)
{ switch(op) { case gs_add: case gs_bpr: return is(a,dom,i,0); case gs_mul: return is(a,dom,i,1); }
  switch(dom) {
  case gs_double: return ((double*)a)[i]==(op==gs_min?DBL_MAX:-DBL_MAX);
  case gs_float: return ((float*)a)[i]==(op==gs_min?FLT_MAX:-FLT_MAX);
  case gs_int: return ((int*)a)[i]==(op==gs_min?INT_MAX:INT_MIN);
  case gs_long: return ((long*)a)[i]==(op==gs_min?LONG_MAX:LONG_MIN);
  default: return ((long long*)a)[i]==(op==gs_min?LLONG_MAX:LLONG_MIN); } }

struct vals { long long v[NPMAX][MAXN][4]; };   /* up to 4 components */
static void make_vals(struct rng *r, const struct prob *p, int op, int dom, struct vals *w, int vn)
{ int i,j,k, twos=20, neg=rng_i(r,0,1);
  for(i=0;i<p->np;++i) for(j=0;j<p->n[i];++j) for(k=0;k<vn;++k) { long long v;
    switch(op) {
    case gs_mul: v=rng_i(r,0,1)?1:-1; if(twos&&rng_i(r,0,3)==0) v*=2,--twos; break;
    case gs_bpr: { int b=rng_i(r,0,20); v=b?((1ll<<(b-1))|(rng_next(r)&((1ll<<(b-1))-1))):0; if(rng_i(r,0,3)) v=5>>rng_i(r,0,2); if(rng_i(r,0,2)==0) v=(11ll<<4)+rng_i(r,0,15); } break;
    case gs_add: v=rng_i(r,-1000,1000); break;
    default: if(dom==gs_long||dom==gs_long_long) v=((long long)rng_i(r,-3,3)*(1ll<<40))+rng_i(r,-9,9); else v=rng_i(r,-100000,100000);
             if(!neg&&v<0) v=-v; if(neg&&v>0) v=-v; break; }
    w->v[i][j][k]=v; } }

/* expected value of entry (i,j), component k */
enum { X_SAME, X_VALUE, X_IDENT, X_ANYOF };
static int expect(const struct prob *p, const slong (*id)[MAXN], const struct vals *w, int op, int transpose, int i, int j, int k, long long *out)
{ slong me_=id[i][j], a=me_<0?-me_:me_; int q,m,have=0; long long acc=0;
  *out=w->v[i][j][k];
  if(me_==0) return X_SAME;
  if(transpose&&me_<0) { /* must not be set; known finding F-C02: a process holding two or more flagged
                            entries and no unflagged one finds its own partial value in one of them */
    int unfl=0, nfl=0; for(m=0;m<p->n[i];++m) { slong x=id[i][m]; if(x==a) unfl=1; if(x==-a) ++nfl; }
    if(unfl||nfl<2) return X_SAME;
    for(m=0;m<p->n[i];++m) if(id[i][m]==-a) { acc=have?red(op,acc,w->v[i][m][k]):w->v[i][m][k]; have=1; }
    *out=acc; return X_ANYOF; }
  for(q=0;q<p->np;++q) for(m=0;m<p->n[q];++m) { slong x=id[q][m];
    if((x<0?-x:x)!=a) continue; if(!transpose&&x<0) continue;
    acc=have?red(op,acc,w->v[q][m][k]):w->v[q][m][k]; have=1; }
  if(!have) return X_IDENT;
  *out=acc; return X_VALUE; }

static void check(const struct prob *p, const slong (*id)[MAXN], const struct vals *w, int dom, int op, int tr, int rank, int j, int k, const void *a, size_t pos, const char *what)
{ long long v; int e=expect(p,id,w,op,tr,rank,j,k,&v);
  if(e==X_IDENT) CHECK(is_identity(a,dom,pos,op),"%s: entry %d component %d (id %lld): no unflagged contribution, expected the identity, got %g",what,j,k,(long long)id[rank][j],get(a,dom,pos));
  else if(e==X_ANYOF) CHECK(is(a,dom,pos,v)||is(a,dom,pos,w->v[rank][j][k]),"%s: flagged entry %d component %d (id %lld) received %g on a transposed operation",what,j,k,(long long)id[rank][j],get(a,dom,pos));
  else CHECK(is(a,dom,pos,v),"%s: entry %d component %d (id %lld): expected %lld, got %g",what,j,k,(long long)id[rank][j],v,get(a,dom,pos)); }

static const char *opn[]={"add","mul","min","max","bpr"};
static const char *domn[]={"double","float","int","long","long_long"};

#ifndef GS_ORACLE_ONLY
static int has_buf(struct rng *r) { return rng_i(r,0,2)!=0; }

void harness_case(struct simcase *c)
{
  struct rng r={c->seed}, lr; struct comm comm; static struct prob p; static struct vals w[4]; int i,j,k,rep,nrep;
  slong (*id)[MAXN]; int rank=c->rank; slong *uid; buffer buf=null_buffer;
  int flags, method, unique, nhand;
  pick_np(&r,c->tier,c->np); 
  rng_next(&r);
  switch(c->mode) { case 1: flags=0; break; default: flags=rng_i(&r,0,3); break; }
  if(c->mode==2&&flags==0) flags=1;
  make_problem(&r,&p,c->np,flags); note_problem(&p,rank);
  id=p.id;
  method=rng_i(&r,0,9); method=method==9?gs_auto:1+method%3;
  unique=c->mode==5?1:(c->mode==2?rng_i(&r,0,4)==0:0);
  comm_init(&comm,MPI_COMM_WORLD);
  uid=XA(slong,p.n[rank]); memcpy(uid,p.id[rank],sizeof(slong)*p.n[rank]);
  lr=r;

  if(unique) { /* compute the flagged ids through gs_unique: check its contract, then use them as the ids */
    slong (*all)[MAXN]; static slong store[NPMAX][MAXN]; void **b=sim_board(); slong *mine=XA(slong,p.n[rank]);
    memcpy(mine,uid,sizeof(slong)*p.n[rank]);
    gs_unique(mine,p.n[rank],&comm);
    b[rank]=mine; sim_barrier();
    for(i=0;i<p.np;++i) memcpy(store[i],b[i],sizeof(slong)*p.n[i]);
    sim_barrier(); all=store;
    /* contract of gs_unique */
    for(i=0;i<p.np;++i) for(j=0;j<p.n[i];++j) { slong a=p.id[i][j], x=all[i][j];
      CHECK((x<0?-x:x)==(a<0?-a:a),"gs_unique: magnitude of id %lld changed to %lld (rank %d entry %d)",(long long)a,(long long)x,i,j);
      CHECK(!(a<0&&x>0),"gs_unique: flagged entry %d of rank %d (id %lld) came back unflagged",j,i,(long long)a); }
    for(i=0;i<p.np;++i) for(j=0;j<p.n[i];++j) { slong a=p.id[i][j]; int q,m,before=0,after=0; if(!a) continue; a=a<0?-a:a;
      for(q=0;q<p.np;++q) for(m=0;m<p.n[q];++m) { before+=p.id[q][m]==a; after+=all[q][m]==a; }
      CHECK(after==(before?1:0),"gs_unique: group %lld has %d unflagged members afterwards (%d before)",(long long)a,after,before); }
    sim_count("unique_groups_checked",1);
    id=all; free(mine);
    if(c->mode==5) { /* unique set-up behaves as setting up with the flagged ids */
      int dom=rng_i(&lr,0,4), op=rng_i(&lr,0,4), tr=rng_i(&lr,0,1); void *u; struct gs_data *g;
      make_vals(&lr,&p,op,dom,&w[0],1);
      if(!rank) sim_note("unique method=%d dom=%s op=%s transpose=%d ",method,domn[dom],opn[op],tr);
      g=gs_setup(uid,p.n[rank],&comm,1,method,rng_i(&lr,0,1));
      CHECK(!memcmp(uid,p.id[rank],sizeof(slong)*p.n[rank]),"gs_setup(unique) modified the id array");
      u=xa(dsize(dom)*p.n[rank]); for(j=0;j<p.n[rank];++j) put(u,dom,j,w[0].v[rank][j][0]);
      gs(u,dom,op,tr,g,&buf);
      for(j=0;j<p.n[rank];++j) { slong a=id[rank][j]; long long v; int e=expect(&p,id,&w[0],op,tr,rank,j,0,&v);
        if(tr&&a<0) continue; (void)e; check(&p,id,&w[0],dom,op,tr,rank,j,0,u,j,"gs after unique set-up"); }
      gs_free(g); free(u); free(uid); buffer_free(&buf); comm_free(&comm); return; }
  }

  nhand = c->mode==4 ? rng_i(&lr,1,3) : 1;
  if(!rank) sim_note("method=%d unique=%d ",method,unique);
  if(c->mode<=3) {
    struct gs_data *g=gs_setup(uid,p.n[rank],&comm,unique,method,rng_i(&lr,0,3)==0);
    CHECK(!memcmp(uid,p.id[rank],sizeof(slong)*p.n[rank]),"gs_setup modified the id array");
    nrep=rng_i(&lr,1,4);
    for(rep=0;rep<nrep;++rep) {
      int dom=rng_i(&lr,0,4), op=rng_i(&lr,0,4), tr=rng_i(&lr,0,1), n=p.n[rank]; buffer *bp=has_buf(&lr)?&buf:0;
      int vn=c->mode==3?rng_i(&lr,1,4):1, shape=c->mode==3?rng_i(&lr,1,2):0; size_t ds=dsize(dom);
      make_vals(&lr,&p,op,dom,&w[0],vn);
      if(!rank) sim_note("call%d dom=%s op=%s transpose=%d shape=%d vn=%d ",rep,domn[dom],opn[op],tr,shape,vn);
      sim_count(shape==2?"calls_many":shape==1?"calls_vec":"calls_plain",1);
      if(shape==0) { void *u=xa(ds*n); for(j=0;j<n;++j) put(u,dom,j,w[0].v[rank][j][0]);
        gs(u,dom,op,tr,g,bp); for(j=0;j<n;++j) check(&p,id,&w[0],dom,op,tr,rank,j,0,u,j,"gs"); free(u); }
      else if(shape==1) { void *u=xa(ds*n*vn); for(j=0;j<n;++j) for(k=0;k<vn;++k) put(u,dom,j*vn+k,w[0].v[rank][j][k]);
        gs_vec(u,vn,dom,op,tr,g,bp); for(j=0;j<n;++j) for(k=0;k<vn;++k) check(&p,id,&w[0],dom,op,tr,rank,j,k,u,j*vn+k,"gs_vec"); free(u); }
      else { void *u[4]; for(k=0;k<vn;++k) { u[k]=xa(ds*n); for(j=0;j<n;++j) put(u[k],dom,j,w[0].v[rank][j][k]); }
        gs_many((void*const*)u,vn,dom,op,tr,g,bp);
        for(k=0;k<vn;++k) { for(j=0;j<n;++j) check(&p,id,&w[0],dom,op,tr,rank,j,k,u[k],j,"gs_many"); free(u[k]); } }
    }
    sim_checkpoint();
    gs_free(g);
  } else if(c->mode==4) {
    /* several handles over the same ids, one operation outstanding on each, own buffers; random wait order */
    struct gs_data *g[3]; buffer b[3]; int h; static struct vals wv[3];
    for(h=0;h<nhand;++h) { int m=1+(int)rng_n(&lr,3); struct rng t=lr; rng_next(&lr); (void)t;
      g[h]=gs_setup(uid,p.n[rank],&comm,0,m,0); b[h].ptr=0,b[h].n=b[h].max=0; if(!rank) sim_note("handle%d method=%d ",h,m); }
    nrep=rng_i(&lr,1,3);
    for(rep=0;rep<nrep;++rep) {
      int order[3], dom[3],op[3],tr[3],vn[3],shape[3],hd[3], nul=rng_i(&lr,0,1), n=p.n[rank]; void *u[3][4]; int mid;
      int wperm[3]; 
      for(h=0;h<nhand;++h) order[h]=wperm[h]=h;
      for(h=nhand-1;h>0;--h) { int x=rng_i(&lr,0,h),t=wperm[h]; wperm[h]=wperm[x]; wperm[x]=t; }
      mid=rng_i(&lr,0,nhand);
      for(h=0;h<nhand;++h) { dom[h]=rng_i(&lr,0,4),op[h]=rng_i(&lr,0,4),tr[h]=rng_i(&lr,0,1),shape[h]=rng_i(&lr,0,2),vn[h]=shape[h]?rng_i(&lr,1,3):1;
        make_vals(&lr,&p,op[h],dom[h],&wv[h],vn[h]);
        if(!rank) sim_note("start%d dom=%s op=%s transpose=%d shape=%d vn=%d ",h,domn[dom[h]],opn[op[h]],tr[h],shape[h],vn[h]); }
      for(h=0;h<nhand;++h) { size_t ds=dsize(dom[h]); buffer *bp=nul?0:&b[h];
        if(shape[h]==0) { u[h][0]=xa(ds*n); for(j=0;j<n;++j) put(u[h][0],dom[h],j,wv[h].v[rank][j][0]); igs(u[h][0],dom[h],op[h],tr[h],g[h],bp,&hd[h]); }
        else if(shape[h]==1) { u[h][0]=xa(ds*n*vn[h]); for(j=0;j<n;++j) for(k=0;k<vn[h];++k) put(u[h][0],dom[h],j*vn[h]+k,wv[h].v[rank][j][k]); igs_vec(u[h][0],vn[h],dom[h],op[h],tr[h],g[h],bp,&hd[h]); }
        else { for(k=0;k<vn[h];++k) { u[h][k]=xa(ds*n); for(j=0;j<n;++j) put(u[h][k],dom[h],j,wv[h].v[rank][j][k]); } igs_many((void*const*)u[h],vn[h],dom[h],op[h],tr[h],g[h],bp,&hd[h]); }
        for(k=0;k<h;++k) CHECK(hd[k]!=hd[h],"two outstanding operations share the handle %d",hd[h]);
      }
      (void)mid;
      for(i=0;i<nhand;++i) { h=wperm[i]; gs_wait(hd[h]);
        for(j=0;j<n;++j) for(k=0;k<vn[h];++k)
          check(&p,id,&wv[h],dom[h],op[h],tr[h],rank,j,k, shape[h]==2?u[h][k]:u[h][0], shape[h]==1?(size_t)(j*vn[h]+k):(size_t)j,"non-blocking operation after its wait");
        sim_count("nonblocking_ops",1);
        if(shape[h]==2) for(k=0;k<vn[h];++k) free(u[h][k]); else free(u[h][0]); }
    }
    sim_checkpoint();
    for(h=0;h<nhand;++h) gs_free(g[h]), buffer_free(&b[h]);
  }
  buffer_free(&buf); free(uid); comm_free(&comm);
}
#endif
