/* Fortran-callable layer: C15.  mode 15 */
#define GS_ORACLE_ONLY
#include "gs.c"
#define F(n) GS_FORTRAN_NAME(n,n)
#define F_(lower) fgslib_##lower##_
void F_(gs_setup_pick)(sint*,const slong*,const sint*,const MPI_Fint*,const sint*,const sint*);
void F_(gs_setup)(sint*,const slong*,const sint*,const MPI_Fint*,const sint*);
void F_(gs_op)(const sint*,void*,const sint*,const sint*,const sint*);
void F_(gs_op_vec)(const sint*,void*,const sint*,const sint*,const sint*,const sint*);
void F_(gs_op_many)(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*);
void F_(gs_op_fields)(const sint*,void*,const sint*,const sint*,const sint*,const sint*,const sint*);
void F_(igs_op)(const sint*,void*,const sint*,const sint*,const sint*,int*);
void F_(igs_op_vec)(const sint*,void*,const sint*,const sint*,const sint*,const sint*,int*);
void F_(igs_op_many)(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*,int*);
void F_(gs_op_wait)(int*);
void F_(gs_free)(const sint*);
void F_(gs_unique)(slong*,const sint*,const MPI_Fint*,const sint*);
void F_(crystal_setup)(sint*,const MPI_Fint*,const sint*);
void F_(crystal_free)(sint*);
void F_(crystal_ituple_sort)(const sint*,sint*,const sint*,const sint*,const sint*,const sint*);
void F_(crystal_tuple_sort)(const sint*,const sint*,sint*,const sint*,slong*,const sint*,double*,const sint*,const sint*,const sint*);
void F_(crystal_ituple_transfer)(const sint*,sint*,const sint*,sint*,const sint*,const sint*);
void F_(crystal_tuple_transfer)(const sint*,sint*,const sint*,sint*,const sint*,slong*,const sint*,double*,const sint*,const sint*);

#include <sys/mman.h>
int harness_np(uint64_t seed, int tier, int mode, int maxnp) { struct rng r={seed}; return pick_np(&r,tier,maxnp>6?6:maxnp); }

static const int fdom[4]={-1,gs_double,gs_int,gs_long_long};
/* values exactly representable: reuse make_vals */

struct badcall { int what; sint h; sint dom, op; };
static double scratch[64];
static void bad(void *v)
{ struct badcall *b=v; sint one=1, zero=0, nk=1, key[1]={1}; int w; MPI_Fint cw=0; sint np=b->dom;
  switch(b->what) {
  case 0: F_(gs_op)(&b->h,scratch,&b->dom,&b->op,&zero); break;
  case 1: F_(gs_op_vec)(&b->h,scratch,&one,&b->dom,&b->op,&zero); break;
  case 2: F_(gs_op_many)(&b->h,scratch,scratch,scratch,scratch,scratch,scratch,&one,&b->dom,&b->op,&zero); break;
  case 3: F_(gs_op_fields)(&b->h,scratch,&one,&one,&b->dom,&b->op,&zero); break;
  case 4: F_(igs_op)(&b->h,scratch,&b->dom,&b->op,&zero,&w); break;
  case 5: F_(igs_op_vec)(&b->h,scratch,&one,&b->dom,&b->op,&zero,&w); break;
  case 6: F_(igs_op_many)(&b->h,scratch,scratch,scratch,scratch,scratch,scratch,&one,&b->dom,&b->op,&zero,&w); break;
  case 7: F_(gs_free)(&b->h); break;
  case 8: { sint n=0; F_(crystal_ituple_sort)(&b->h,(sint*)scratch,&one,&n,key,&nk); } break;
  case 9: { sint n=0; F_(crystal_tuple_sort)(&b->h,&n,(sint*)scratch,&one,(slong*)scratch,&zero,scratch,&zero,key,&nk); } break;
  case 10: { sint n=0; F_(crystal_ituple_transfer)(&b->h,(sint*)scratch,&one,&n,&one,&one); } break;
  case 11: { sint n=0; F_(crystal_tuple_transfer)(&b->h,&n,&one,(sint*)scratch,&one,(slong*)scratch,&zero,scratch,&zero,&one); } break;
  case 12: { sint h=b->h; F_(crystal_free)(&h); } break;
  case 13: { sint h; F_(crystal_setup)(&h,&cw,&np); } break;
  case 14: { sint h,n=0; slong id[1]={0}; F_(gs_setup)(&h,id,&n,&cw,&np); } break; } }

#define MAXH 12
static void gs_part(struct simcase *c, struct rng *g)
{
  int np=c->np, rank=c->rank, step, i,j,k, nsteps=rng_i(g,4,14), nh=0; static struct { int live; sint h; struct prob p; } H[MAXH]; MPI_Fint cw=0; sint fnp=np;
  static sint dead[MAXH]; int ndead=0;
  for(step=0;step<nsteps;++step) {
    int what=rng_i(g,0,9); int live=0; for(i=0;i<nh;++i) live+=H[i].live;
    if(live==0||(what<3&&nh<MAXH)) { sint m=rng_i(g,0,5)?rng_i(g,1,3):0, n; H[nh].live=1; make_problem(g,&H[nh].p,np,rng_i(g,0,3)); n=H[nh].p.n[rank];
      if(rng_i(g,0,3)) F_(gs_setup_pick)(&H[nh].h,H[nh].p.id[rank],&n,&cw,&fnp,&m); else F_(gs_setup)(&H[nh].h,H[nh].p.id[rank],&n,&cw,&fnp);
      if(!rank) { sim_note("h%d=setup(method %d) ",nh,m); note_problem(&H[nh].p,rank); }
      for(i=0;i<nh;++i) if(H[i].live) CHECK(H[i].h!=H[nh].h,"a new gather-scatter handle equals the live handle %d",H[i].h);
      CHECK(H[nh].h>=0,"negative handle %d",H[nh].h);
      for(i=j=0;i<ndead;++i) if(dead[i]!=H[nh].h) dead[j++]=dead[i]; ndead=j;
      ++nh; continue; }
    for(i=rng_i(g,0,nh-1);!H[i].live;i=(i+1)%nh);
    if(what==3) { F_(gs_free)(&H[i].h); H[i].live=0; dead[ndead++]=H[i].h; if(!rank) sim_note("free(h%d) ",i); continue; }
    if(what==4) { /* misuse must be rejected, and leave everything else intact */
      struct badcall b; int kind=rng_i(g,0,2); b.what=rng_i(g,0,7); b.dom=rng_i(g,1,3); b.op=rng_i(g,1,4); b.h=H[i].h;
      if(kind==0&&ndead) b.h=dead[rng_i(g,0,ndead-1)]; else if(kind<=1) { static const sint bh[]={-1,-7,1000000,INT_MAX,INT_MIN}; b.h=bh[rng_i(g,0,4)]; kind=1; } else if(b.what==7) { b.h=-1; } else if(rng_i(g,0,1)) { static const sint bd[]={0,4,-1,100}; b.dom=bd[rng_i(g,0,3)]; } else { static const sint bo[]={0,5,-1,100}; b.op=bo[rng_i(g,0,3)]; }
      if(!rank) sim_note("bad(call %d handle %d dom %d op %d) ",b.what,b.h,b.dom,b.op);
      CHECK(sim_expect_exit(bad,&b),"call %d with handle %d, datatype %d, operation %d was accepted",b.what,b.h,b.dom,b.op); sim_count("misuse_rejected",1); continue; }
    { /* an operation, possibly with others outstanding */
      int nout=what>=7?rng_i(g,1,3):1, nb=what>=7, used[3], o; static struct vals wv[3]; sint dom[3],op[3],tr[3],vn[3],shape[3],stride[3]; int wh[3]; void *u[3][6]; static const sint ops[5]={0,gs_add,gs_mul,gs_min,gs_max};
      for(o=0;o<nout;++o) { int t=0; used[o]=-1; for(k=rng_i(g,0,nh-1);t<nh;++t,k=(k+1)%nh) { int d=0; for(j=0;j<o;++j) d|=used[j]==k; if(H[k].live&&!d) { used[o]=k; break; } } if(used[o]<0) break; }
      nout=o;
      for(o=0;o<nout;++o) { struct prob *p=&H[used[o]].p; int n=p->n[rank]; size_t ds;
        dom[o]=rng_i(g,1,3), op[o]=rng_i(g,1,4), tr[o]=rng_i(g,0,1)?0:rng_i(g,1,3), shape[o]=rng_i(g,0,nb?2:3), vn[o]=shape[o]?rng_i(g,1,4):1;
        ds=dsize(fdom[dom[o]]); stride[o]=MAXN+rng_i(g,0,3);
        make_vals(g,p,ops[op[o]],fdom[dom[o]],&wv[o],vn[o]);
        if(!rank) sim_note("%sop(h%d dom=%d op=%d transpose=%d shape=%d vn=%d) ",nb?"i":"",used[o],dom[o],op[o],tr[o],shape[o],vn[o]);
        switch(shape[o]) {
        case 0: u[o][0]=xa(ds*n); for(j=0;j<n;++j) put(u[o][0],fdom[dom[o]],j,wv[o].v[rank][j][0]); break;
        case 1: u[o][0]=xa(ds*n*vn[o]); for(j=0;j<n;++j) for(k=0;k<vn[o];++k) put(u[o][0],fdom[dom[o]],j*vn[o]+k,wv[o].v[rank][j][k]); break;
        case 2: for(k=0;k<6;++k) u[o][k]=0; for(k=0;k<vn[o];++k) { u[o][k]=xa(ds*n); for(j=0;j<n;++j) put(u[o][k],fdom[dom[o]],j,wv[o].v[rank][j][k]); } break;
        default: u[o][0]=xa(ds*stride[o]*vn[o]); for(k=0;k<vn[o];++k) for(j=0;j<stride[o];++j) put(u[o][0],fdom[dom[o]],(size_t)k*stride[o]+j,j<n?wv[o].v[rank][j][k]:-77); }
        { sint *h=&H[used[o]].h; void **v=u[o]; sint vv=vn[o];
          switch(shape[o]+10*nb) {
          case 0: F_(gs_op)(h,v[0],&dom[o],&op[o],&tr[o]); break;
          case 1: F_(gs_op_vec)(h,v[0],&vv,&dom[o],&op[o],&tr[o]); break;
          case 2: F_(gs_op_many)(h,v[0],v[1],v[2],v[3],v[4],v[5],&vv,&dom[o],&op[o],&tr[o]); break;
          case 3: F_(gs_op_fields)(h,v[0],&stride[o],&vv,&dom[o],&op[o],&tr[o]); break;
          case 10: F_(igs_op)(h,v[0],&dom[o],&op[o],&tr[o],&wh[o]); break;
          case 11: F_(igs_op_vec)(h,v[0],&vv,&dom[o],&op[o],&tr[o],&wh[o]); break;
          case 12: F_(igs_op_many)(h,v[0],v[1],v[2],v[3],v[4],v[5],&vv,&dom[o],&op[o],&tr[o],&wh[o]); break; } } }
      { int perm[3]={0,1,2}; for(o=nout-1;o>0;--o) { int x=rng_i(g,0,o),t=perm[o]; perm[o]=perm[x]; perm[x]=t; }
        for(k=0;k<nout;++k) { int q; struct prob *p; int n; o=perm[k]; p=&H[used[o]].p; n=p->n[rank];
          if(nb) F_(gs_op_wait)(&wh[o]);
          for(j=0;j<n;++j) for(q=0;q<vn[o];++q) check(p,p->id,&wv[o],fdom[dom[o]],ops[op[o]],tr[o]!=0,rank,j,q,shape[o]==2?u[o][q]:u[o][0],shape[o]==1?(size_t)(j*vn[o]+q):shape[o]==3?(size_t)q*stride[o]+j:(size_t)j,"Fortran gather-scatter");
          if(shape[o]==3) for(q=0;q<vn[o];++q) for(j=n;j<stride[o];++j) CHECK(is(u[o][0],fdom[dom[o]],(size_t)q*stride[o]+j,-77),"gs_op_fields changed memory between the fields");
          sim_count("fortran_ops",1);
          if(shape[o]==2) for(q=0;q<vn[o];++q) free(u[o][q]); else free(u[o][0]); } } }
  }
  sim_checkpoint();
  for(i=0;i<nh;++i) if(H[i].live) F_(gs_free)(&H[i].h);
  /* unique through Fortran */
  { static struct prob p; slong *id; void **b=sim_board(); sint n; int q,m; make_problem(g,&p,np,rng_i(g,0,3)); n=p.n[rank]; id=XA(slong,n); memcpy(id,p.id[rank],n*sizeof(slong));
    F_(gs_unique)(id,&n,&cw,&fnp); b[rank]=id; sim_barrier();
    for(j=0;j<n;++j) { slong a=llabs(p.id[rank][j]); int before=0,after=0; CHECK(llabs(id[j])==a&&!(p.id[rank][j]<0&&id[j]>0),"gs_unique changed id %lld to %lld",(long long)p.id[rank][j],(long long)id[j]); if(!a) continue;
      for(q=0;q<np;++q) for(m=0;m<p.n[q];++m) before+=p.id[q][m]==a, after+=((slong*)b[q])[m]==a;
      CHECK(after==(before?1:0),"gs_unique left %d unflagged entries of group %lld",after,(long long)a); }
    sim_barrier(); free(id); }
}

/* fields far apart: the byte distance between two fields exceeds 32 bits (address space only: nothing but the entries is touched) */
static void wide_part(struct simcase *c, struct rng *g)
{ int np=c->np, rank=c->rank, i, j; MPI_Fint cw=0; sint fnp=np, h, n=2, dom=rng_i(g,1,3), op=1, tr=0, nf=2, stride; slong id[2]={7,9}; size_t ds=dsize(fdom[dom]), len; char *u; long *ok=calloc(1,sizeof(long)); void **b=sim_board(); int all=1;
  stride=(sint)(((size_t)1<<32)/ds)+rng_i(g,0,64); if(ds==4) stride=(1<<30)+rng_i(g,0,64); len=((size_t)stride+2)*ds;
  u=mmap(0,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); *ok=u!=MAP_FAILED; b[rank]=ok; sim_barrier(); for(i=0;i<np;++i) all&=*(long*)b[i]!=0; sim_barrier();
  if(all) { if(!rank) sim_note("wide fields: dom=%d stride=%d ",dom,stride);
    F_(gs_setup)(&h,id,&n,&cw,&fnp);
    for(i=0;i<2;++i) for(j=0;j<2;++j) put(u,fdom[dom],(size_t)i*stride+j,(rank+1)*(1+2*i+j));
    F_(gs_op_fields)(&h,u,&stride,&nf,&dom,&op,&tr);
    for(i=0;i<2;++i) for(j=0;j<2;++j) CHECK(is(u,fdom[dom],(size_t)i*stride+j,np*(np+1)/2*(1+2*i+j)),"gs_op_fields with stride %d, datatype %d: entry %d of field %d is wrong",stride,dom,j,i);
    F_(gs_free)(&h); sim_count("wide_fields",1); }
  if(*ok) munmap(u,len); sim_barrier(); free(ok); }
static uint64_t hsh(uint64_t a,uint64_t b) { struct rng r={a*0x9e3779b97f4a7c15ull^b}; return rng_next(&r); }
static void cr_part(struct simcase *c, struct rng *g)
{
  int np=c->np, rank=c->rank, i,j,k,nh=rng_i(g,1,4), rep; MPI_Fint cw=0; sint fnp=np, h[4]; int live[4]; void **b=sim_board(); struct rng r={hsh(c->seed,rank+9)};
  { struct badcall bc={rng_i(g,13,14),0,np+rng_i(g,1,3),1}; CHECK(sim_expect_exit(bad,&bc),"a set-up with %d processes was accepted on a communicator of %d",bc.dom,np); }
  for(i=0;i<nh;++i) { F_(crystal_setup)(&h[i],&cw,&fnp); live[i]=1; for(j=0;j<i;++j) CHECK(h[j]!=h[i],"two crystal handles are equal"); }
  if(!rank) sim_note("crystal handles %d ",nh);
  for(rep=0;rep<4;++rep) { int x=rng_i(g,0,nh-1);
    if(!live[x]||rng_i(g,0,5)==0) { struct badcall bc; bc.h=h[x]; bc.what=rng_i(g,8,12); bc.dom=bc.op=1; if(live[x]) bc.h=rng_i(g,0,1)?-1:100000; CHECK(sim_expect_exit(bad,&bc),"crystal call %d accepted the invalid handle %d",bc.what,bc.h); sim_count("misuse_rejected",1); continue; }
    if(rng_i(g,0,4)==0&&nh>1) { sint hh=h[x]; F_(crystal_free)(&hh); live[x]=0; continue; }
    { /* tuples: column = (vi[mi], vl[ml], vr[md]); a serial number in vi or vl */
      int tuple=rng_i(g,0,1), fixed_small=rng_i(g,0,3)==0; sint mi=rng_i(g,1,4), ml=tuple?rng_i(g,0,3):0, md=tuple?rng_i(g,0,3):0, kp=rng_i(g,1,mi), n=rng_i(&r,0,5)?rng_i(&r,0,12):0, n0=n, max, ret; sint *vi; slong *vl; double *vr; uint *dst=XA(uint,n+1); int q,tot=0;
      max=fixed_small?n+rng_i(&r,0,4):200; vi=XA(sint,max*mi), vl=XA(slong,max*ml), vr=XA(double,max*md);
      if(!rank) sim_note("%s(mi=%d ml=%d md=%d kp=%d small=%d) ",tuple?"tuple_transfer":"ituple_transfer",mi,ml,md,kp,fixed_small);
      for(i=0;i<n;++i) { uint64_t s=hsh(c->seed,(rep*64+rank)*1000+i); dst[i]=rng_i(&r,0,np-1); for(k=0;k<mi;++k) vi[i*mi+k]=k+1==kp?(sint)dst[i]:(sint)(hsh(s,k)&0x7fffffff); for(k=0;k<ml;++k) vl[i*ml+k]=(slong)(hsh(s,100+k)>>1); for(k=0;k<md;++k) vr[i*md+k]=(double)(hsh(s,200+k)>>20); }
      dst[n]=UINT_MAX; b[rank]=dst; sim_barrier();
      for(q=0;q<np;++q) { uint *d=b[q]; for(;*d!=UINT_MAX;++d) tot+=*d==(uint)rank; }
      if(tuple) F_(crystal_tuple_transfer)(&h[x],&n,&max,vi,&mi,vl,&ml,vr,&md,&kp); else F_(crystal_ituple_transfer)(&h[x],vi,&mi,&n,&max,&kp);
      ret=n; CHECK(ret==tot,"tuple transfer reports %d columns, %d were sent to process %d",ret,tot,rank); if(n>max) n=max, sim_count("over_capacity",1);
      { char *seen=calloc(np*64,1); for(i=0;i<n;++i) { int src=vi[i*mi+kp-1], hit=-1; uint *d; CHECK(src>=0&&src<np,"column %d: source is %d",i,src); d=b[src];
        for(j=0;d[j]!=UINT_MAX;++j) { uint64_t s=hsh(c->seed,(rep*64+src)*1000+j); int ok=d[j]==(uint)rank&&!seen[src*64+j]; for(k=0;k<mi&&ok;++k) if(k+1!=kp) ok=vi[i*mi+k]==(sint)(hsh(s,k)&0x7fffffff); for(k=0;k<ml&&ok;++k) ok=vl[i*ml+k]==(slong)(hsh(s,100+k)>>1); for(k=0;k<md&&ok;++k) ok=vr[i*md+k]==(double)(hsh(s,200+k)>>20); if(ok) { hit=j; break; } }
        CHECK(hit>=0,"column %d received from process %d was not sent by it, or arrived twice",i,src); seen[src*64+hit]=1; } free(seen); }
      sim_barrier(); (void)n0; free(dst); sim_count("columns_transferred",n);
      /* sort */
      if(!fixed_small) { sint nk=rng_i(g,1,3), key[3]; sint *wi=XA(sint,n*mi); slong *wl=XA(slong,n*ml); double *wr=XA(double,n*md); int *perm=XA(int,n);
        for(k=0;k<nk;++k) key[k]=rng_i(g,1,mi+ml);
        for(i=0;i<n;++i) { for(k=0;k<mi;++k) if(vi[i*mi+k]&3) vi[i*mi+k]&=7; for(k=0;k<ml;++k) if(vl[i*ml+k]&3) vl[i*ml+k]=(vl[i*ml+k]&3)*(1ll<<40); }
        memcpy(wi,vi,sizeof(sint)*n*mi); memcpy(wl,vl,sizeof(slong)*n*ml); memcpy(wr,vr,sizeof(double)*n*md);
        if(tuple) F_(crystal_tuple_sort)(&h[x],&n,vi,&mi,vl,&ml,vr,&md,key,&nk); else F_(crystal_ituple_sort)(&h[x],vi,&mi,&n,key,&nk);
        for(i=0;i<n;++i) perm[i]=i;
        /* stable insertion sort as the oracle */
        for(i=1;i<n;++i) for(j=i;j>0;--j) { int a=perm[j-1],d=perm[j],cmp=0; for(k=0;k<nk&&!cmp;++k) { int y=key[k]-1; if(y<mi) cmp=(wi[a*mi+y]>wi[d*mi+y])-(wi[a*mi+y]<wi[d*mi+y]); else cmp=(wl[a*ml+y-mi]>wl[d*ml+y-mi])-(wl[a*ml+y-mi]<wl[d*ml+y-mi]); } if(cmp<=0) break; perm[j]=a; perm[j-1]=d; }
        for(i=0;i<n;++i) { int s=perm[i]; CHECK(!memcmp(vi+i*mi,wi+s*mi,mi*sizeof(sint))&&(!ml||!memcmp(vl+i*ml,wl+s*ml,ml*sizeof(slong)))&&(!md||!memcmp(vr+i*md,wr+s*md,md*sizeof(double))),"tuple sort: column %d is not the one a stable lexicographic sort puts there",i); }
        sim_count("columns_sorted",n); free(wi),free(wl),free(wr),free(perm); }
      free(vi),free(vl),free(vr); sim_barrier(); } }
  for(i=0;i<nh;++i) if(live[i]) F_(crystal_free)(&h[i]);
}
void harness_case(struct simcase *c)
{ struct rng g={c->seed^99}; gs_part(c,&g); cr_part(c,&g); if(c->index%16==3) wide_part(c,&g); }
