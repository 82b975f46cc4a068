/* Point location over a distributed mesh: C18 (every element whose box holds the point is tried, mode 18), C19 (selection and merge of candidates, mode 19),
   C20 (evaluation at located points, mode 20), C21 (search in one element, mode 21). */
#include "common.h"
#include "poly.h"
#include "obbox.h"
#include "findpts_el.h"
#include "findpts_local.h"
#include "findpts.h"
#include <sys/mman.h>
#define ffindpts_setup      GS_FORTRAN_NAME(findpts_setup     ,FINDPTS_SETUP     )
#define ffindpts_free       GS_FORTRAN_NAME(findpts_free      ,FINDPTS_FREE      )
#define ffindpts            GS_FORTRAN_NAME(findpts           ,FINDPTS           )
#define ffindpts_eval       GS_FORTRAN_NAME(findpts_eval      ,FINDPTS_EVAL      )
#define ffindpts_eval_local GS_FORTRAN_NAME(findpts_eval_local,FINDPTS_EVAL_LOCAL)
void ffindpts_setup(sint*,const MPI_Fint*,const sint*,const sint*,const double*,const double*,const double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const sint*,const double*);
void ffindpts_free(const sint*);
void ffindpts(const sint*,sint*,const sint*,sint*,const sint*,sint*,const sint*,double*,const sint*,double*,const sint*,const double*,const sint*,const double*,const sint*,const double*,const sint*,const sint*);
void ffindpts_eval(const sint*,double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
void ffindpts_eval_local(const sint*,double*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);

#define MAXEL 64
static int D; static unsigned n[3],m[3],nt; static double bbt;
static long double lagv[3][16];
static double *zn[3];
static void basis(int d,double x) { unsigned i,j; for(i=0;i<n[d];++i) { long double v=1; for(j=0;j<n[d];++j) if(j!=i) v*=((long double)x-zn[d][j])/((long double)zn[d][i]-zn[d][j]); lagv[d][i]=v; } }
static double ev(const double *u,const double *r) { unsigned i; long double s=0; int d; for(d=0;d<D;++d) basis(d,r[d]); for(i=0;i<nt;++i) s+=lagv[0][i%n[0]]*lagv[1][i/n[0]%n[1]]*(D>2?lagv[2][i/n[0]/n[1]]:1)*u[i]; return s; }
/* gradient of coordinate u with respect to r, by central differences of the exact interpolant (a polynomial of degree < 8) */
static void grad(const double *u,const double *r,double *g) { int d; for(d=0;d<D;++d) { double a[3],b[3],h=1e-5; int e; for(e=0;e<D;++e) a[e]=b[e]=r[e]; a[d]+=h,b[d]-=h; g[d]=(ev(u,a)-ev(u,b))/(2*h); } }

int harness_np(uint64_t seed,int tier,int mode,int maxnp) { struct rng r={seed^0x51}; int k; if(mode==21) return 1; if(maxnp>8) maxnp=8; k=rng_i(&r,0,9); return k==0?1:k<7?rng_i(&r,2,maxnp<5?maxnp:5):rng_i(&r,2,maxnp); }

static void sizes(struct rng *r,int small) { int d; nt=1; D=rng_i(r,2,3); n[2]=m[2]=1; for(d=0;d<D;++d) { n[d]=rng_i(r,2,small?(D==2?5:4):(D==2?8:5)); m[d]=2*n[d]+rng_i(r,0,2); nt*=n[d]; zn[d]=XA(double,n[d]); lobatto_nodes(zn[d],n[d]); } }
static void sizes_free(void) { int d; for(d=0;d<D;++d) free(zn[d]); }

/* one element --------------------------------------------------------------------------------------------------------- */
static struct findpts_el_data_2 e2; static struct findpts_el_data_3 e3;
struct cand { double r[3],dist2; unsigned flags; };
static void el_start(const double *const x[3]) { if(D==2) findpts_el_start_2(&e2,x); else findpts_el_start_3(&e3,x); }
static void el_find(struct cand *c,const double (*x)[3],int k,double tol) { int i,d; /* k <= npt_max */
  if(D==2) { struct findpts_el_pt_2 *p=findpts_el_points_2(&e2); for(i=0;i<k;++i) for(d=0;d<2;++d) p[i].x[d]=x[i][d]; findpts_el_2(&e2,k,tol); for(i=0;i<k;++i) { for(d=0;d<2;++d) c[i].r[d]=p[i].r[d]; c[i].dist2=p[i].dist2,c[i].flags=p[i].flags; } }
  else { struct findpts_el_pt_3 *p=findpts_el_points_3(&e3); for(i=0;i<k;++i) for(d=0;d<3;++d) p[i].x[d]=x[i][d]; findpts_el_3(&e3,k,tol); for(i=0;i<k;++i) { for(d=0;d<3;++d) c[i].r[d]=p[i].r[d]; c[i].dist2=p[i].dist2,c[i].flags=p[i].flags; } } }
static const double NTOL=1024*DBL_EPSILON;

static void mkel(struct rng *r,double *x[3],const double *corner,const double *size,double amp,const double *ph)
{ unsigned i; int d; for(i=0;i<nt;++i) { double q[3]={zn[0][i%n[0]],zn[1][i/n[0]%n[1]],D>2?zn[2][i/n[0]/n[1]]:0},y[3]; for(d=0;d<D;++d) y[d]=corner[d]+.5*(q[d]+1)*size[d]; for(d=0;d<D;++d) x[d][i]=y[d]+amp*sin(2.1*y[(d+1)%D]+.9*y[(d+2)%D]+ph[d]); } }

static void one_el(struct simcase *c)
{ struct rng r={c->seed}; int d,k,rep,i,np_=rng_i(&r,1,24); double *x[3],corner[3],size[3],ph[3],amp; const double *cx[3]; double (*xs)[3]; struct cand *cd; double (*tr)[3]; double h=1e300; int *inside;
  sizes(&r,0); amp=rng_d(&r)*.08; for(d=0;d<3;++d) corner[d]=rng_d(&r)-.5,size[d]=.6+.8*rng_d(&r),ph[d]=6*rng_d(&r),x[d]=XA(double,nt); for(d=0;d<D;++d) if(size[d]<h) h=size[d];
  sim_note("one element D=%d n=%u,%u,%u npt_max=%d amp=%g ",D,n[0],n[1],n[2],np_,amp);
  mkel(&r,x,corner,size,amp,ph); for(d=0;d<3;++d) cx[d]=x[d];
  if(D==2) findpts_el_setup_2(&e2,n,np_); else findpts_el_setup_3(&e3,n,np_);
  xs=malloc(np_*sizeof *xs),tr=malloc(np_*sizeof *tr),cd=XA(struct cand,np_),inside=XA(int,np_); el_start(cx);
  for(rep=0;rep<3;++rep) { k=rep==0?np_:rng_i(&r,1,np_);
    for(i=0;i<k;++i) { double q[3]; int kind=rng_i(&r,0,9); for(d=0;d<D;++d) q[d]=kind<5?-.97+1.94*rng_d(&r):kind<7?(rng_i(&r,0,1)?zn[d][rng_i(&r,0,n[d]-1)]:-1+2*rng_d(&r)):-1.25+2.5*rng_d(&r);
      inside[i]=1; for(d=0;d<D;++d) if(fabs(q[d])>.999999) inside[i]=0; if(kind>=7) { int o=rng_i(&r,0,D-1); q[o]=(rng_i(&r,0,1)?1:-1)*(1.02+.2*rng_d(&r)); inside[i]=0; if(rng_i(&r,0,2)==0) q[(o+1)%D]=(rng_i(&r,0,1)?1:-1)*(1.02+.2*rng_d(&r)); }
      for(d=0;d<D;++d) tr[i][d]=q[d],xs[i][d]=ev(x[d],q); }
    el_find(cd,xs,k,NTOL);
    for(i=0;i<k;++i) { double d2=0,y[3],g[3][3],gr[3]={0,0,0},sc; int e; const struct cand *p=cd+i; sim_note("\n  point %d at (%g,%g,%g) found at (%.15g,%.15g,%.15g) dist2=%g flags=%x",i,tr[i][0],tr[i][1],D>2?tr[i][2]:0,p->r[0],p->r[1],D>2?p->r[2]:0,p->dist2,p->flags);
      for(d=0;d<D;++d) { CHECK(p->r[d]>=-1&&p->r[d]<=1,"reference coordinate %d = %.17g outside the element",d,p->r[d]); y[d]=xs[i][d]-ev(x[d],p->r); d2+=y[d]*y[d]; }
      CHECK(p->flags&(1u<<(2*D)),"the search did not converge on a mildly deformed element");
      for(d=0;d<D;++d) { unsigned f=p->flags>>(2*d)&3; CHECK(f!=3,"both sides of direction %d flagged",d); if(f) CHECK(p->r[d]==(f==1?-1:1),"constrained in direction %d but at %.17g",d,p->r[d]); }
      CHECK(fabs(sqrt(p->dist2)-sqrt(d2))<=1e-7*h,"squared distance %g reported, %g at the returned coordinates",p->dist2,d2);
      if(inside[i]) { for(d=0;d<D;++d) CHECK(fabs(p->r[d]-tr[i][d])<=1e-6,"interior point at reference coordinate %d = %.12g located at %.12g",d,tr[i][d],p->r[d]); CHECK(d2<=1e-18,"interior point located at distance %g",sqrt(d2)); CHECK((p->flags&((1u<<(2*D))-1))==0,"interior point flagged %x",p->flags); }
      else { int in=1; for(d=0;d<D;++d) if(fabs(tr[i][d])>1.01) in=0; if(in) CHECK(d2<=1e-14,"point of the element located at distance %g",sqrt(d2)); else CHECK(d2>1e-8*h*h&&(p->flags&((1u<<(2*D))-1)),"point outside located inside (distance %g, flags %x)",sqrt(d2),p->flags);
        /* first-order conditions for the closest point of the element */
        for(d=0;d<D;++d) grad(x[d],p->r,g[d]); for(e=0;e<D;++e) for(d=0;d<D;++d) gr[e]+=y[d]*g[d][e]; sc=(sqrt(d2)+1e-9)*h; 
        for(e=0;e<D;++e) { unsigned f=p->flags>>(2*e)&3; double s=f==0?fabs(gr[e]):f==1?gr[e]:-gr[e]; CHECK(s<=1e-4*sc,"not a closest point: derivative %g along direction %d (flag %u)",gr[e],e,f); }
        sim_count("border_points",1); }
      sim_count("points",1); }
    /* evaluation at arbitrary coordinates */
    { double *u=XA(double,nt),*rr,*out; unsigned j,st=rng_i(&r,D,D+2); for(j=0;j<nt;++j) u[j]=rng_d(&r)-.5; rr=XA(double,st*k),out=XA(double,2*k); for(j=0;j<st*k;++j) rr[j]=-1+2*rng_d(&r); for(j=0;j<2*(unsigned)k;++j) out[j]=77;
      if(D==2) findpts_el_eval_2(out,2*sizeof(double),rr,st*sizeof(double),k,u,&e2); else findpts_el_eval_3(out,2*sizeof(double),rr,st*sizeof(double),k,u,&e3);
      for(i=0;i<k;++i) { double t=ev(u,rr+i*st); CHECK(fabs(out[2*i]-t)<=1e-11,"value %.15g instead of %.15g at point %d of %d",out[2*i],t,i,k); CHECK(out[2*i+1]==77,"entry between two results changed"); } free(u),free(rr),free(out); }
    if(rep==0) { for(d=0;d<3;++d) corner[d]+=rng_d(&r); mkel(&r,x,corner,size,amp,ph); el_start(cx); } }
  if(D==2) findpts_el_free_2(&e2); else findpts_el_free_3(&e3);
  for(d=0;d<3;++d) free(x[d]); free(xs),free(tr),free(cd),free(inside); sizes_free(); }

/* strongly deformed elements and far points: nothing is promised about convergence, but what is returned has to be consistent */
static void any_el(struct simcase *c)
{ struct rng r={c->seed}; int d,i,rep,np_=rng_i(&r,1,24); double *x[3],corner[3],size[3],ph[3],amp; const double *cx[3]; double (*xs)[3]; struct cand *cd;
  sizes(&r,0); amp=rng_d(&r)*.45; for(d=0;d<3;++d) corner[d]=rng_d(&r)-.5,size[d]=.4+1.2*rng_d(&r),ph[d]=6*rng_d(&r),x[d]=XA(double,nt);
  sim_note("any element D=%d n=%u,%u,%u npt_max=%d amp=%g ",D,n[0],n[1],n[2],np_,amp);
  mkel(&r,x,corner,size,amp,ph); for(d=0;d<3;++d) cx[d]=x[d];
  if(D==2) findpts_el_setup_2(&e2,n,np_); else findpts_el_setup_3(&e3,n,np_);
  xs=malloc(np_*sizeof *xs),cd=XA(struct cand,np_); el_start(cx);
  for(rep=0;rep<3;++rep) { double f=rep==0?.6:rep==1?1.2:3; for(i=0;i<np_;++i) for(d=0;d<D;++d) xs[i][d]=corner[d]+size[d]*(.5+f*(2*rng_d(&r)-1));
    el_find(cd,xs,np_,NTOL);
    for(i=0;i<np_;++i) { const struct cand *p=cd+i; double d2=0; sim_note("\n  point %d (%g,%g,%g) found at (%.15g,%.15g,%.15g) dist2=%g flags=%x",i,xs[i][0],xs[i][1],D>2?xs[i][2]:0,p->r[0],p->r[1],D>2?p->r[2]:0,p->dist2,p->flags);
      for(d=0;d<D;++d) { double y; unsigned f=p->flags>>(2*d)&3; CHECK(p->r[d]>=-1&&p->r[d]<=1,"reference coordinate %d = %.17g outside the element",d,p->r[d]); y=xs[i][d]-ev(x[d],p->r); d2+=y*y;
        CHECK(f!=3,"both sides of direction %d flagged",d); if(f) CHECK(p->r[d]==(f==1?-1:1),"constrained in direction %d but at %.17g",d,p->r[d]); }
      if(p->flags&(1u<<(2*D))) { CHECK(fabs(p->dist2-d2)<=1e-7*(1+d2),"squared distance %g reported, %g at the returned coordinates",p->dist2,d2); sim_count("any_converged",1);
        { double g[3][3],gr[3]={0,0,0},gn[3]={0,0,0}; int e; for(d=0;d<D;++d) grad(x[d],p->r,g[d]); for(e=0;e<D;++e) for(d=0;d<D;++d) gr[e]+=(xs[i][d]-ev(x[d],p->r))*g[d][e],gn[e]+=g[d][e]*g[d][e];
          for(e=0;e<D;++e) { unsigned f=p->flags>>(2*e)&3; double s=f==0?fabs(gr[e]):f==1?gr[e]:-gr[e]; CHECK(s<=1e-4*(sqrt(d2)+1e-9)*sqrt(gn[e]),"not a closest point: derivative %g along direction %d (flag %u)",gr[e],e,f); } } } else sim_count("any_unconverged",1); } }
  if(D==2) findpts_el_free_2(&e2); else findpts_el_free_3(&e3);
  for(d=0;d<3;++d) free(x[d]); free(xs),free(cd); sizes_free(); }

/* distributed mesh ---------------------------------------------------------------------------------------------------- */
struct el { int proc,loc,sess; double *x[3],*dist; struct obbox_2 b2; struct obbox_3 b3; };
static struct el E[MAXEL]; static int nE;
struct q { double x[3]; int own,sess; double tr[3]; int kind,te; };
struct resv { unsigned code,proc,el; double r[3],dist2,out; };
static int boxed(const struct el *e,const double *x) { return (D==2?obbox_test_2(&e->b2,x):obbox_test_3(&e->b3,x))>=0; }
static double boxm(const struct el *e,const double *x) { return D==2?obbox_test_2(&e->b2,x):obbox_test_3(&e->b3,x); }

static void mesh_case(struct simcase *c)
{ struct rng r={c->seed}; int np=c->np,id=c->rank,ms=(c->mode==19||c->mode==18)&&rng_i(&r,0,2)==0,nsess=1,K[3]={1,1,1},d,i,j,k,s,nq,nel=0,fortran=0,match=0; unsigned npt_max,lhs,ghs; int psess[64]; double bt,amp,ph[3],sz[3]; double *elx[3],*distf=0; struct q *Q; struct comm comm; int rounds,rd; uint nsid,sb=rng_i(&r,0,1)*rng_i(&r,1,1000000);
  sizes(&r,1); bt=rng_i(&r,0,2)==0?.1:.01; amp=.05*rng_d(&r); npt_max=rng_i(&r,0,2)?rng_i(&r,1,9):256; for(d=0;d<3;++d) ph[d]=6*rng_d(&r),sz[d]=.6+.6*rng_d(&r);
  if(ms) nsess=rng_i(&r,1,np<3?np:3); for(i=0;i<np;++i) psess[i]=i<nsess?i:rng_i(&r,0,nsess-1);
  nE=0; for(s=0;s<nsess;++s) { double off[3]; int lim=nsess==1?(D==2?12:8):(D==2?6:4); do { for(d=0;d<D;++d) K[d]=rng_i(&r,1,D==2?4:3); } while(K[0]*K[1]*K[2]>lim); for(d=0;d<3;++d) off[d]=s?(rng_d(&r)-.5):0; 
    for(k=0;k<K[0]*K[1]*K[2];++k) { struct el *e=&E[nE]; double co[3]={off[0]+(k%K[0])*sz[0],off[1]+(k/K[0]%K[1])*sz[1],off[2]+(k/K[0]/K[1])*sz[2]}; int cnt; e->sess=s; for(d=0;d<3;++d) e->x[d]=XA(double,nt); mkel(&r,e->x,co,sz,amp,ph); do e->proc=rng_i(&r,0,np-1); while(psess[e->proc]!=s); e->loc=0; for(j=0;j<nE;++j) if(E[j].proc==e->proc) ++e->loc; (void)cnt;
      e->dist=XA(double,nt); { double a[3],b=3*rng_d(&r); unsigned q; for(d=0;d<3;++d) a[d]=rng_d(&r)-.5; if(rng_i(&r,0,3)==0) { a[0]=a[1]=a[2]=0; b=s; } for(q=0;q<nt;++q) e->dist[q]=b+a[0]*e->x[0][q]+a[1]*e->x[1][q]+(D>2?a[2]*e->x[2][q]:0); }
      { const double *cx[3]={e->x[0],e->x[1],e->x[2]}; if(D==2) obbox_calc_2(&e->b2,cx,n,1,m,bt); else obbox_calc_3(&e->b3,cx,n,1,m,bt); } ++nE; } }
  for(i=0;i<nE;++i) if(E[i].proc==id) ++nel; nsid=psess[id]+sb;
  for(d=0;d<3;++d) elx[d]=XA(double,nt*nel); distf=XA(double,nt*nel); for(i=0;i<nE;++i) if(E[i].proc==id) { for(d=0;d<D;++d) memcpy(elx[d]+E[i].loc*nt,E[i].x[d],nt*sizeof(double)); memcpy(distf+E[i].loc*nt,E[i].dist,nt*sizeof(double)); }
  lhs=rng_i(&r,0,2)?nel*nt+2+rng_i(&r,0,40):nel+2; /* at least nel+2 */ { int g=rng_i(&r,0,3); ghs=g==0?1:g==1?rng_i(&r,1,5):g==2?200:rng_i(&r,1,400); }
  fortran=!ms&&rng_i(&r,0,3)==0; match=rng_i(&r,0,1); 
  nq=rng_i(&r,0,40); Q=XA(struct q,nq); 
  sim_note("D=%d n=%u,%u,%u elements=%d bbox_tol=%g npt_max=%u gbl_hash=%u points=%d sessions=%d match=%d fortran=%d ",D,n[0],n[1],n[2],nE,bt,npt_max,ghs,nq,nsess,match,fortran);
  { struct findpts_data_2 *f2=0; struct findpts_data_3 *f3=0; sint fh=-1; const double *cx[3]={elx[0],elx[1],elx[2]}; comm_init(&comm,MPI_COMM_WORLD);
    if(fortran) { MPI_Fint fc=0; sint np_=np,nd=D,a[3]={n[0],n[1],n[2]},b[3]={m[0],m[1],m[2]},ne=nel,l=lhs,g=ghs,nm=npt_max; ffindpts_setup(&fh,&fc,&np_,&nd,elx[0],elx[1],elx[2],&a[0],&a[1],&a[2],&ne,&b[0],&b[1],&b[2],&bt,&l,&g,&nm,&NTOL); }
    else if(ms) { if(D==2) f2=findptsms_setup_2(&comm,cx,n,nel,m,bt,lhs,ghs,npt_max,NTOL,&nsid,distf); else f3=findptsms_setup_3(&comm,cx,n,nel,m,bt,lhs,ghs,npt_max,NTOL,&nsid,distf); }
    else { if(D==2) f2=findpts_setup_2(&comm,cx,n,nel,m,bt,lhs,ghs,npt_max,NTOL); else f3=findpts_setup_3(&comm,cx,n,nel,m,bt,lhs,ghs,npt_max,NTOL); }
    if(D==2) findpts_el_setup_2(&e2,n,4); else findpts_el_setup_3(&e3,n,4);
    rounds=rng_i(&r,1,2);
    for(rd=0;rd<rounds;++rd) { int my=0,*mine; unsigned cs,ps,es,rs,ds,xs[3]; uint *code,*proc,*el; double *R,*d2,*X[3]; uint *sid,st;
      for(i=0;i<nq;++i) { struct q *q=Q+i; int g=rng_i(&r,0,11); double rr[3]; struct el *e=&E[rng_i(&r,0,nE-1)]; q->own=rng_i(&r,0,np-1); q->sess=psess[rng_i(&r,0,np-1)]; q->kind=0; q->te=e-E;
        for(d=0;d<D;++d) rr[d]=-.95+1.9*rng_d(&r); if(g<5) q->kind=1; else if(g<7) { rr[rng_i(&r,0,D-1)]=rng_i(&r,0,1)?1:-1; } else if(g<8) { for(d=0;d<D;++d) rr[d]=rng_i(&r,0,1)?1:-1; } else if(g<10) { for(d=0;d<D;++d) rr[d]*=1.25; } else if(g<11) { for(d=0;d<D;++d) rr[d]*=1+4*rng_d(&r); } else { for(d=0;d<D;++d) rr[d]=(rng_d(&r)-.5)*100; }
        for(d=0;d<3;++d) q->tr[d]=rr[d],q->x[d]=0; for(d=0;d<D;++d) q->x[d]=g<8?ev(e->x[d],rr):.5*(ev(e->x[d],(double[3]){-1,-1,-1})+ev(e->x[d],(double[3]){1,1,1}))+.5*sz[d]*rr[d]; }
      mine=XA(int,nq); for(i=0;i<nq;++i) if(Q[i].own==id) mine[my++]=i;
      cs=rng_i(&r,1,3),ps=rng_i(&r,1,3),es=rng_i(&r,1,3),rs=rng_i(&r,D,D+2),ds=rng_i(&r,1,2),st=rng_i(&r,1,2); for(d=0;d<3;++d) xs[d]=rng_i(&r,1,3);
      code=XA(uint,cs*my),proc=XA(uint,ps*my),el=XA(uint,es*my),R=XA(double,rs*my),d2=XA(double,ds*my),sid=XA(uint,st*my); for(d=0;d<3;++d) X[d]=XA(double,xs[d]*my);
      for(i=0;i<my;++i) { for(d=0;d<3;++d) X[d][i*xs[d]]=Q[mine[i]].x[d]; sid[i*st]=Q[mine[i]].sess+sb; }
      for(i=0;i<(int)cs*my;++i) code[i]=91; for(i=0;i<(int)ps*my;++i) proc[i]=92; for(i=0;i<(int)es*my;++i) el[i]=93; for(i=0;i<(int)rs*my;++i) R[i]=94; for(i=0;i<(int)ds*my;++i) d2[i]=95;
      { const double *xb[3]={X[0],X[1],X[2]}; unsigned xst[3]; uint mt=match; for(d=0;d<3;++d) xst[d]=xs[d]*sizeof(double);
        if(fortran) { sint a=cs,b=ps,e=es,g=rs,h=ds,x0=xs[0],x1=xs[1],x2=xs[2],m_=my; ffindpts(&fh,(sint*)code,&a,(sint*)proc,&b,(sint*)el,&e,R,&g,d2,&h,X[0],&x0,X[1],&x1,X[2],&x2,&m_); }
        else if(ms) { if(D==2) findptsms_2(code,cs*sizeof(uint),proc,ps*sizeof(uint),el,es*sizeof(uint),R,rs*sizeof(double),d2,ds*sizeof(double),xb,xst,sid,st*sizeof(uint),&mt,my,f2); else findptsms_3(code,cs*sizeof(uint),proc,ps*sizeof(uint),el,es*sizeof(uint),R,rs*sizeof(double),d2,ds*sizeof(double),xb,xst,sid,st*sizeof(uint),&mt,my,f3); }
        else { if(D==2) findpts_2(code,cs*sizeof(uint),proc,ps*sizeof(uint),el,es*sizeof(uint),R,rs*sizeof(double),d2,ds*sizeof(double),xb,xst,my,f2); else findpts_3(code,cs*sizeof(uint),proc,ps*sizeof(uint),el,es*sizeof(uint),R,rs*sizeof(double),d2,ds*sizeof(double),xb,xst,my,f3); } }
      sim_checkpoint();
      for(i=0;i<my;++i) { struct q *q=Q+mine[i]; unsigned cd=code[i*cs]; double *rr=R+i*rs,dd=d2[i*ds]; int any=0,amb=0; struct el *f=0; double y=0; struct cand best[3]; double bdist[3]={0,0,0}; int has[3]={0,0,0},top=0;
        for(j=1;j<(int)cs;++j) CHECK(code[i*cs+j]==91,"entry between two codes changed"); for(j=1;j<(int)ps;++j) CHECK(proc[i*ps+j]==92,"entry between two processor numbers changed"); for(j=1;j<(int)es;++j) CHECK(el[i*es+j]==93,"entry between two element numbers changed"); for(j=D;j<(int)rs;++j) CHECK(R[i*rs+j]==94,"entry behind the coordinates changed"); for(j=1;j<(int)ds;++j) CHECK(d2[i*ds+j]==95,"entry between two distances changed");
        for(d=0;d<3;++d) CHECK(X[d][i*xs[d]]==q->x[d],"input point changed");
        CHECK(cd<=2,"code %u",cd);
        for(j=0;j<nE;++j) { double b; if(ms&&(match==1)!=(E[j].sess==q->sess)) continue; b=boxm(&E[j],q->x); if(fabs(b)<1e-9) amb=1; if(b>=0) any=1; }
        if(amb) { sim_count("box_boundary_points",1); continue; }
        if(cd==2) { CHECK(!any,"point %d (%.15g,%.15g,%.15g) lies in the box of an element but was not found",mine[i],q->x[0],q->x[1],q->x[2]); sim_count("not_found",1); continue; }
        CHECK(any,"point %d (%.15g,%.15g,%.15g) lies in the box of no element, yet code is %u",mine[i],q->x[0],q->x[1],q->x[2],cd);
        CHECK(proc[i*ps]<(uint)np,"processor %u",proc[i*ps]);
        for(j=0;j<nE;++j) if(E[j].proc==(int)proc[i*ps]&&E[j].loc==(int)el[i*es]) f=&E[j];
        CHECK(f!=0,"point %d: element %u of processor %u does not exist",mine[i],el[i*es],proc[i*ps]);
        if(ms) CHECK((match==1)==(f->sess==q->sess),"point %d of session %d located in an element of session %d (match %d)",mine[i],q->sess,f->sess,match);
        for(d=0;d<D;++d) { double t; CHECK(rr[d]>=-1&&rr[d]<=1,"reference coordinate %.17g",rr[d]); t=ev(f->x[d],rr)-q->x[d]; y+=t*t; }
        CHECK(fabs(sqrt(y)-sqrt(dd))<=1e-7,"point %d: squared distance %g reported, %g at the returned coordinates",mine[i],dd,y);
        if(cd==0) CHECK(y<=1e-14,"point %d: inside element, but at distance %g",mine[i],sqrt(y));
        if(!ms&&q->kind==1) { CHECK(cd==0,"interior point %d: code %u",mine[i],cd); CHECK(f==&E[q->te],"interior point of element %d located in element %d",q->te,(int)(f-E)); for(d=0;d<D;++d) CHECK(fabs(rr[d]-q->tr[d])<1e-6,"interior point: coordinate %d %.12g instead of %.12g",d,rr[d],q->tr[d]); }
        /* what the search in each single element gives */
        for(j=0;j<nE;++j) { const double *ex[3]={E[j].x[0],E[j].x[1],E[j].x[2]}; struct cand cc; double di=0; int in,s=ms?E[j].sess:0; if(ms&&(match==1)!=(E[j].sess==q->sess)) continue; if(!boxed(&E[j],q->x)) continue; el_start(ex); el_find(&cc,(const double(*)[3])q->x,1,NTOL); in=cc.flags==(1u<<(2*D)); if(ms) di=ev(E[j].dist,cc.r);
          if(f==&E[j]) { sim_note(" [chosen %d d2=%g in=%d di=%g code=%u]",j,cc.dist2,in,di,cd); } else sim_note(" [cand %d sess %d d2=%g in=%d di=%g]",j,E[j].sess,cc.dist2,in,di);
          if(!has[s]) best[s]=cc,best[s].flags=in,bdist[s]=di,has[s]=1; else { int bi=best[s].flags; if(in&&!bi) best[s]=cc,best[s].flags=1,bdist[s]=di; else if(in==bi&&!in&&cc.dist2<best[s].dist2) best[s]=cc,best[s].flags=0,bdist[s]=di; else if(in&&bi) { if(fabs(di-bdist[s])>1e-9) amb=1; } 
            if(in!=bi&&fabs(cc.dist2-best[s].dist2)<1e-18&&fabs(di-bdist[s])>1e-9) amb=1; else if(!in&&!bi&&fabs(cc.dist2-best[s].dist2)<=1e-12&&fabs(di-bdist[s])>1e-9) amb=1; } }
        if(!ms) { int s0=0; CHECK(has[s0],"no candidate"); if(best[s0].flags) CHECK(cd==0,"point %d: an element contains the point, yet code is %u",mine[i],cd); else { CHECK(cd==1,"point %d: no element contains the point, yet code is %u",mine[i],cd); CHECK(sqrt(dd)<=sqrt(best[s0].dist2)+1e-7,"point %d: element at distance %g returned, the best is at %g",mine[i],sqrt(dd),sqrt(best[s0].dist2)); } sim_count(cd?"border":"internal",1); }
        else if(!amb) { double mx=-1e300; for(s=0;s<nsess;++s) if(has[s]&&bdist[s]>mx) mx=bdist[s],top=s; { double di=ev(f->dist,rr); s=f->sess; CHECK(di>=mx-1e-6,"point %d: session %d gives distance function %g, session %d gives %g",mine[i],s,di,top,mx); if(best[s].flags) CHECK(cd==0,"point %d: an element of session %d contains the point, yet code is %u",mine[i],s,cd); else CHECK(sqrt(dd)<=sqrt(best[s].dist2)+1e-7,"point %d: element at distance %g returned, the best of its session is at %g",mine[i],sqrt(dd),sqrt(best[s].dist2)); sim_count("multisession",1); } }
        (void)top; }
      /* evaluate fields at the located points */
      if(c->mode==20||rng_i(&r,0,3)==0) { int fld,nf=rng_i(&r,1,3),alter=rng_i(&r,0,1); double *in=XA(double,nt*nel),*full[MAXEL]; unsigned os=rng_i(&r,1,3); double *out=XA(double,os*my);
        for(j=0;j<nE;++j) full[j]=XA(double,nt);
        if(alter) { struct rng r2={c->seed*31+id+7*rd}; for(i=0;i<my;++i) { j=rng_i(&r2,0,nE-1); if(code[i*cs]!=2&&rng_i(&r2,0,3)==0) continue; code[i*cs]=rng_i(&r2,0,4)?rng_i(&r2,0,1):2; proc[i*ps]=E[j].proc,el[i*es]=E[j].loc; for(d=0;d<D;++d) R[i*rs+d]=-1+2*rng_d(&r2); if(code[i*cs]==2&&rng_i(&r2,0,1)) proc[i*ps]=1000000,el[i*es]=1000000; } }
        for(fld=0;fld<nf;++fld) { for(j=0;j<nE;++j) { unsigned q; for(q=0;q<nt;++q) full[j][q]=fld==0&&nf>1?E[j].x[rd%D][q]:rng_d(&r)-.5; if(E[j].proc==id) memcpy(in+E[j].loc*nt,full[j],nt*sizeof(double)); }
          for(i=0;i<(int)os*my;++i) out[i]=-55;
          if(fortran) { sint a=os,b=cs,e=ps,g=es,h=rs,m_=my; ffindpts_eval(&fh,out,&a,(sint*)code,&b,(sint*)proc,&e,(sint*)el,&g,R,&h,&m_,in); }
          else if(ms) { if(D==2) findptsms_eval_2(out,os*sizeof(double),code,cs*sizeof(uint),proc,ps*sizeof(uint),el,es*sizeof(uint),R,rs*sizeof(double),my,in,f2); else findptsms_eval_3(out,os*sizeof(double),code,cs*sizeof(uint),proc,ps*sizeof(uint),el,es*sizeof(uint),R,rs*sizeof(double),my,in,f3); }
          else { if(D==2) findpts_eval_2(out,os*sizeof(double),code,cs*sizeof(uint),proc,ps*sizeof(uint),el,es*sizeof(uint),R,rs*sizeof(double),my,in,f2); else findpts_eval_3(out,os*sizeof(double),code,cs*sizeof(uint),proc,ps*sizeof(uint),el,es*sizeof(uint),R,rs*sizeof(double),my,in,f3); }
          for(i=0;i<my;++i) { struct el *f=0; double t; for(j=1;j<(int)os;++j) CHECK(out[i*os+j]==-55,"entry between two results changed"); if(code[i*cs]==2) { CHECK(out[i*os]==-55,"result of a point that was not found changed"); continue; } for(j=0;j<nE;++j) if(E[j].proc==(int)proc[i*ps]&&E[j].loc==(int)el[i*es]) f=&E[j]; t=ev(full[f-E],R+i*rs); CHECK(fabs(out[i*os]-t)<=1e-10,"field %d at point %d (processor %u, element %u): %.15g instead of %.15g",fld,mine[i],proc[i*ps],el[i*es],out[i*os],t); sim_count("evaluations",1); }
          if(fortran) { /* local evaluation */ sint k_=0,one=1,rs_=rs,os_=os; uint *le=XA(uint,my); double *lr=XA(double,my*rs),*lo=XA(double,my*os); for(j=0;j<nel;++j) for(i=0;i<my;++i) if((i*7+j)%3==0&&k_<my) { le[k_]=j; for(d=0;d<D;++d) lr[k_*rs+d]=R[i*rs+d]>=-1&&R[i*rs+d]<=1?R[i*rs+d]:.1; ++k_; } ffindpts_eval_local(&fh,lo,&os_,(sint*)le,&one,lr,&rs_,&k_,in); for(i=0;i<k_;++i) { double t=ev(in+le[i]*nt,lr+i*rs); CHECK(fabs(lo[i*os]-t)<=1e-10,"local evaluation of point %d: %.15g instead of %.15g",i,lo[i*os],t); } free(le),free(lr),free(lo); } }
        for(j=0;j<nE;++j) free(full[j]); free(in),free(out); }
      sim_checkpoint();
      free(mine),free(code),free(proc),free(el),free(R),free(d2),free(sid); for(d=0;d<3;++d) free(X[d]); }
    if(fortran) ffindpts_free(&fh); else if(ms) { if(D==2) findptsms_free_2(f2); else findptsms_free_3(f3); } else { if(D==2) findpts_free_2(f2); else findpts_free_3(f3); }
    if(D==2) findpts_el_free_2(&e2); else findpts_el_free_3(&e3); comm_free(&comm); }
  for(i=0;i<nE;++i) { for(d=0;d<3;++d) free(E[i].x[d]); free(E[i].dist); } for(d=0;d<3;++d) free(elx[d]); free(distf),free(Q); sizes_free(); (void)bbt; }
/* results far apart: the byte distances exceed 32 bits (address space only: nothing but the entries is touched) */
static void wide_eval(struct simcase *c)
{ struct rng r={c->seed}; int d,i,np_=rng_i(&r,1,9),k=3; double *x[3],co[3]={0,0,0},sz[3]={1,1,1},ph[3]={0,0,0},R[9]; const double *cx[3]; size_t st=(size_t)1<<31,len=2*st+4096; char *o; double *u; uint el[3]={0,0,0}; unsigned j;
  sizes(&r,1); for(d=0;d<3;++d) x[d]=XA(double,nt); mkel(&r,x,co,sz,0,ph); for(d=0;d<3;++d) cx[d]=x[d]; u=XA(double,nt); for(j=0;j<nt;++j) u[j]=rng_d(&r)-.5; for(i=0;i<9;++i) R[i]=-1+2*rng_d(&r);
  o=mmap(0,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(o!=MAP_FAILED) { sim_note("wide results D=%d n=%u,%u,%u npt_max=%d ",D,n[0],n[1],n[2],np_);
    if(D==2) { struct findpts_local_data_2 f; findpts_local_setup_2(&f,cx,n,1,m,.01,nt+2,np_,NTOL); findpts_local_eval_2((double*)o,(unsigned)st,el,sizeof(uint),R,3*sizeof(double),k,u,&f); findpts_local_free_2(&f); }
    else { struct findpts_local_data_3 f; findpts_local_setup_3(&f,cx,n,1,m,.01,nt+2,np_,NTOL); findpts_local_eval_3((double*)o,(unsigned)st,el,sizeof(uint),R,3*sizeof(double),k,u,&f); findpts_local_free_3(&f); }
    for(i=0;i<k;++i) { double v=*(double*)(o+st*i),t=ev(u,R+3*i); CHECK(fabs(v-t)<=1e-11,"results 2^31 bytes apart: point %d gives %.15g instead of %.15g",i,v,t); }
    munmap(o,len); sim_count("wide_results",1); }
  free(u); for(d=0;d<3;++d) free(x[d]); sizes_free(); }
void harness_case(struct simcase *c) { struct rng r={c->seed^0x77}; if(c->mode==21) { if(rng_i(&r,0,2)==0) any_el(c); else one_el(c); } else if(c->mode==20&&c->index%16==3) { wide_eval(c); sim_barrier(); mesh_case(c); } else mesh_case(c); }
