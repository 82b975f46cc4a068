/* Polynomial basis and quadrature: C22 (mode 22); polynomial bounds and bounding boxes: C17 (mode 17).  One process. */
#include "common.h"
#include "poly.h"
#include "lob_bnd.h"
#include "obbox.h"
int harness_np(uint64_t s,int t,int m,int mx) { return 1; }
#define PI_ 3.14159265358979323846
/* reference Lagrange basis with two derivatives, long double, product form (exact at the nodes) */
static void lag_ref(long double *p,const double *z,int n,double x,int der)
{ int i,j,k,l; for(i=0;i<n;++i) { long double v=1,d1=0,d2=0; for(j=0;j<n;++j) if(j!=i) v*=((long double)x-z[j])/((long double)z[i]-z[j]);
    if(der) for(k=0;k<n;++k) if(k!=i) { long double t=1/((long double)z[i]-z[k]); for(j=0;j<n;++j) if(j!=i&&j!=k) t*=((long double)x-z[j])/((long double)z[i]-z[j]); d1+=t;
      if(der>1) for(l=0;l<n;++l) if(l!=i&&l!=k) { long double s=1/((long double)z[i]-z[k])/((long double)z[i]-z[l]); for(j=0;j<n;++j) if(j!=i&&j!=k&&j!=l) s*=((long double)x-z[j])/((long double)z[i]-z[j]); d2+=s; } }
    p[i]=v; if(der) p[n+i]=d1; if(der>1) p[2*n+i]=d2; } }
static long double leg(int n,long double x,long double *d) { long double a=1,b=x,c; int k; if(n==0) { *d=0; return 1; } for(k=1;k<n;++k) c=((2*k+1)*x*b-k*a)/(k+1),a=b,b=c; *d=n*(x*b-a)/(x*x-1); return b; }
static void poly_case(struct simcase *c)
{ struct rng r={c->seed}; int what=rng_i(&r,0,4),n,i,d,k; double scale;
  sim_count("poly_cases",1);
  if(what<=1) { /* quadrature */
    double *z,*w; long double s,t; n=rng_i(&r,what?2:1,c->tier?60:40); z=XA(double,n),w=XA(double,n); sim_note("%s quadrature n=%d ",what?"Lobatto":"Gauss",n);
    if(what) lobatto_quad(z,w,n); else gauss_quad(z,w,n);
    if(what) { double *y=XA(double,n); lobatto_nodes(y,n); for(i=0;i<n;++i) CHECK(y[i]==z[i],"node %d of lobatto_nodes and lobatto_quad differ",i); free(y); } else { double *y=XA(double,n); gauss_nodes(y,n); for(i=0;i<n;++i) CHECK(y[i]==z[i],"node %d of gauss_nodes and gauss_quad differ",i); free(y); }
    for(i=0;i<n;++i) { CHECK(z[i]>=-1&&z[i]<=1&&w[i]>0,"node %d = %g, weight %g",i,z[i],w[i]); if(i) CHECK(z[i]>z[i-1],"nodes %d and %d are not increasing",i-1,i); CHECK(fabs(z[i]+z[n-1-i])<=1e-15&&fabs(w[i]-w[n-1-i])<=1e-14,"rule is not symmetric at %d",i); }
    if(what) CHECK(z[0]==-1&&z[n-1]==1,"end points are not nodes");
    /* exact for Legendre polynomials up to the degree of the rule */
    for(k=0;k<=(what?2*n-3:2*n-1);++k) { s=0; for(i=0;i<n;++i) { long double x=z[i],q; if(x==1) q=1; else if(x==-1) q=k&1?-1:1; else q=leg(k,x,&t); s+=w[i]*q; } CHECK(fabsl(s-(k==0?2:0))<=1e-12,"integral of the Legendre polynomial of degree %d is %Lg with %d nodes",k,s,n); }
    free(z),free(w); return; }
  n=rng_i(&r,what==2?1:2,what==2?16:c->tier?40:30);
  { double *z=XA(double,n),*data,*p; long double *q=malloc(sizeof(long double)*3*n); lagrange_fun *lag; int rep; sim_note("%s basis n=%d ",what==2?"general":"GLL",n);
    if(what==2) { for(i=0;i<n;++i) z[i]=-1+2*(i+.2+.6*rng_d(&r))/n; for(i=n-1;i>0;--i) { int j=rng_i(&r,0,i); double t=z[i]; z[i]=z[j],z[j]=t; } data=XA(double,lagrange_size(n)); lag=lagrange_setup(data,z,n); }
    else { lobatto_nodes(z,n); data=XA(double,gll_lag_size(n)); lag=gll_lag_setup(data,n); CHECK(lag!=0,"no basis for n=%d",n); }
    for(rep=0;rep<6;++rep) { double x=rep==5?z[rng_i(&r,0,n-1)]:rep==4?(rng_i(&r,0,1)?1:-1):-1+2*rng_d(&r); d=rng_i(&r,0,2); p=XA(double,(d+1)*n); sim_note("x=%.17g d=%d ",x,d);
      lag(p,data,n,d,x); lag_ref(q,z,n,x,d);
      for(k=0;k<=d;++k) { scale=1; for(i=0;i<n;++i) if(fabsl(q[k*n+i])>scale) scale=fabsl(q[k*n+i]); for(i=0;i<n;++i) CHECK(fabsl(p[k*n+i]-q[k*n+i])<=2e-10*scale,"derivative %d of basis function %d of %d at %.17g: %.17g instead of %.17Lg",k,i,n,x,p[k*n+i],q[k*n+i]); }
      free(p); }
    if(what!=2) { CHECK(z[0]==-1&&z[n-1]==1,"end points"); }
    free(z),free(data),free(q); } }

/* value of the tensor-product polynomial u at r */
static double evalp(int D,const unsigned *n,double *const z[3],const double *u,const double *r)
{ long double b[3][32],s=0; unsigned i,j,k; int d; for(d=0;d<D;++d) lag_ref(b[d],z[d],n[d],r[d],0);
  for(k=0;k<(D>2?n[2]:1);++k) for(j=0;j<(D>1?n[1]:1);++j) for(i=0;i<n[0];++i) s+=b[0][i]*(D>1?b[1][j]:1)*(D>2?b[2][k]:1)*u[i+n[0]*(j+(D>1?n[1]:1)*k)]; return s; }
static double pick_r(struct rng *r,const double *h,int m) { switch(rng_i(r,0,5)) { case 0: return rng_i(r,0,1)?1:-1; case 1: return h[rng_i(r,0,m-1)]; case 2: { int j=rng_i(r,0,m-2); return .5*(h[j]+h[j+1]); } default: return -1+2*rng_d(r); } }
static void lob_case(struct simcase *c)
{ struct rng r={c->seed}; int D=rng_i(&r,1,3),d,rep,style=rng_i(&r,0,3); unsigned n[3]={1,1,1},m[3]={1,1,1},nt=1,mt=1,i,j,k; double *data[3],*z[3],*h[3],*u,*b,*w,scale=0; struct dbl_range bnd;
  for(d=0;d<D;++d) { n[d]=rng_i(&r,2,D==1?12:D==2?7:4); m[d]=rng_i(&r,2*n[d],4*n[d]); nt*=n[d],mt*=m[d]; data[d]=XA(double,lob_bnd_size(n[d],m[d])); lob_bnd_setup(data[d],n[d],m[d]); z[d]=XA(double,n[d]); lobatto_nodes(z[d],n[d]); h[d]=XA(double,m[d]); h[d][0]=-1,h[d][m[d]-1]=1; for(j=1;j+1<m[d];++j) h[d][j]=cos((m[d]-1-j)*PI_/(m[d]-1)); }
  sim_note("bounds D=%d n=%u,%u,%u m=%u,%u,%u style=%d ",D,n[0],n[1],n[2],m[0],m[1],m[2],style);
  u=XA(double,nt); for(i=0;i<nt;++i) { u[i]=style==0?rng_d(&r)-.5:style==1?(rng_i(&r,0,(int)nt)==0):style==2?5+1e-3*(rng_d(&r)-.5):rng_i(&r,-1,1)*pow(10,rng_i(&r,-3,3)); if(fabs(u[i])>scale) scale=fabs(u[i]); }
  /* the piecewise multilinear bounds (nodes h) enclose the polynomial */
  b=XA(double,2*mt);
  if(D==1) lob_bnd_lin_1(b,data[0],n[0],m[0],u,1);
  else if(D==2) { w=XA(double,2*m[0]+2*n[1]*m[0]); lob_bnd_lin_2(b,data[0],n[0],m[0],data[1],n[1],m[1],u,1,w); free(w); }
  else { w=XA(double,2*m[0]*m[1]+2*n[2]*m[1]*m[0]); lob_bnd_lin_3(b,data[0],n[0],m[0],data[1],n[1],m[1],data[2],n[2],m[2],u,1,w); free(w); }
  if(D==1) { w=XA(double,2*m[0]); bnd=lob_bnd_1(data[0],n[0],m[0],u,w); }
  else if(D==2) { w=XA(double,2*m[0]*(n[1]+m[1]+1)); bnd=lob_bnd_2(data[0],n[0],m[0],data[1],n[1],m[1],u,w); }
  else { w=XA(double,2*m[0]*m[1]*(n[2]+m[2]+1)); bnd=lob_bnd_3(data[0],n[0],m[0],data[1],n[1],m[1],data[2],n[2],m[2],u,w); }
  free(w);
  { double lo=b[0],hi=b[1]; for(i=0;i<mt;++i) { if(b[2*i]<lo) lo=b[2*i]; if(b[2*i+1]>hi) hi=b[2*i+1]; CHECK(b[2*i]<=b[2*i+1]+1e-9*scale,"lower bound above upper bound at node %u",i); } CHECK(bnd.min==lo&&bnd.max==hi,"range [%g,%g] is not the extent [%g,%g] of the piecewise bounds",bnd.min,bnd.max,lo,hi); }
  for(rep=0;rep<40;++rep) { double x[3]={0,0,0},v,lo=0,hi=0; unsigned e[3]; double f[3]; 
    for(d=0;d<D;++d) { x[d]=pick_r(&r,h[d],m[d]); for(e[d]=0;e[d]+2<m[d]&&h[d][e[d]+1]<x[d];++e[d]); f[d]=(x[d]-h[d][e[d]])/(h[d][e[d]+1]-h[d][e[d]]); }
    v=evalp(D,n,z,u,x);
    for(k=0;k<(1u<<D);++k) { double wt=1; unsigned idx=0,st=1; for(d=0;d<D;++d) { unsigned bit=k>>d&1; wt*=bit?f[d]:1-f[d]; idx+=st*0; st=st; } { unsigned a0=e[0]+(k&1),a1=D>1?e[1]+(k>>1&1):0,a2=D>2?e[2]+(k>>2&1):0; /* node order: last direction fastest within each extension */
        idx = D==1?a0 : D==2? a0*m[1]+a1 : (a0*m[1]+a1)*m[2]+a2; } lo+=wt*b[2*idx],hi+=wt*b[2*idx+1]; }
    CHECK(v>=bnd.min-1e-9*scale&&v<=bnd.max+1e-9*scale,"value %.15g at (%g,%g,%g) lies outside the bounds [%.15g,%.15g]",v,x[0],x[1],x[2],bnd.min,bnd.max);
    CHECK(v>=lo-1e-9*scale&&v<=hi+1e-9*scale,"value %.15g at (%g,%g,%g) lies outside the piecewise linear bounds [%.15g,%.15g]",v,x[0],x[1],x[2],lo,hi); }
  sim_count("polynomials_bounded",1); for(d=0;d<D;++d) free(data[d]),free(z[d]),free(h[d]); free(u),free(b); }
static void box_case(struct simcase *c)
{ struct rng r={c->seed}; int D=rng_i(&r,2,3),d,e,rep,nel=rng_i(&r,1,3); unsigned n[3]={1,1,1},m[3]={1,1,1},nt=1,i; double *z[3],*x[3],tol=rng_i(&r,0,1)?0.01*rng_i(&r,0,10):rng_d(&r)*1e-6+1e-8,h2[2]={-1,1}; 
  for(d=0;d<D;++d) { n[d]=rng_i(&r,2,D==2?7:5); m[d]=rng_i(&r,2*n[d],3*n[d]); nt*=n[d]; z[d]=XA(double,n[d]); lobatto_nodes(z[d],n[d]); } 
  sim_note("boxes D=%d nel=%d n=%u,%u,%u m=%u,%u,%u tol=%g ",D,nel,n[0],n[1],n[2],m[0],m[1],m[2],tol); if(tol<1e-8) tol=1e-8;
  for(d=0;d<D;++d) x[d]=XA(double,nt*nel);
  for(e=0;e<nel;++e) { double A[9],c0[3],am=rng_d(&r)*.12,ph[3],off=rng_i(&r,0,2)?0:1000,sc=pow(10,rng_i(&r,-3,2)); int flip=rng_i(&r,0,1); for(i=0;i<9;++i) A[i]=(rng_d(&r)-.5)*.6+(i%4==0?(flip&&i==0?-1.3:1.3):0); for(d=0;d<3;++d) c0[d]=off*(rng_d(&r)-.5),ph[d]=6*rng_d(&r);
    for(i=0;i<nt;++i) { double q[3]={z[0][i%n[0]],z[1][i/n[0]%n[1]],D>2?z[2][i/n[0]/n[1]]:0},y[3]; for(d=0;d<D;++d) y[d]=q[d]+am*sin(2*q[(d+1)%D]+ph[d]); for(d=0;d<D;++d) { int f; double s=0; for(f=0;f<D;++f) s+=A[3*d+f]*y[f]; x[d][e*nt+i]=c0[d]+sc*s; } } }
  { struct obbox_2 *o2=XA(struct obbox_2,nel); struct obbox_3 *o3=XA(struct obbox_3,nel); const double *ex[3]={x[0],x[1],x[2]};
    if(D==2) obbox_calc_2(o2,ex,n,nel,m,tol); else obbox_calc_3(o3,ex,n,nel,m,tol);
    for(e=0;e<nel;++e) for(rep=0;rep<25;++rep) { double q[3]={pick_r(&r,h2,2),pick_r(&r,h2,2),pick_r(&r,h2,2)},p[3]={0,0,0},t; for(d=0;d<D;++d) p[d]=evalp(D,n,z,x[d]+e*nt,q);
      for(d=0;d<D;++d) { struct dbl_range b=D==2?o2[e].x[d]:o3[e].x[d]; CHECK(b.min<=p[d]&&p[d]<=b.max,"element %d: point (%g,%g,%g) of the element has coordinate %d = %.15g outside the box [%.15g,%.15g]",e,q[0],q[1],q[2],d,p[d],b.min,b.max); }
      t=D==2?obbox_test_2(&o2[e],p):obbox_test_3(&o3[e],p); CHECK(t>=0,"element %d: the point at (%g,%g,%g) of the element is rejected by the oriented box (%g)",e,q[0],q[1],q[2],t);
      { double s[3]; int f; for(d=0;d<D;++d) for(s[d]=0,f=0;f<D;++f) s[d]+=D==2?o2[e].A[2*d+f]*(p[f]-o2[e].c0[f]):o3[e].A[3*d+f]*(p[f]-o3[e].c0[f]); for(d=0;d<D;++d) CHECK(s[d]>=-1&&s[d]<=1,"element %d: oriented coordinate %d of one of its points is %.15g",e,d,s[d]); }
      /* the two tests agree with the documented inequalities for arbitrary points */
      { double s[3],y[3],mn=1e300; int f,in=1,ax=1; for(d=0;d<D;++d) { struct dbl_range b=D==2?o2[e].x[d]:o3[e].x[d]; y[d]=b.min+(b.max-b.min)*(rng_d(&r)*1.6-.3); if(y[d]<b.min||y[d]>b.max) ax=0; }
        for(d=0;d<D;++d) { for(s[d]=0,f=0;f<D;++f) s[d]+=D==2?o2[e].A[2*d+f]*(y[f]-o2[e].c0[f]):o3[e].A[3*d+f]*(y[f]-o3[e].c0[f]); if(fabs(s[d])>1) in=0; if(fabs(1-fabs(s[d]))<mn) mn=fabs(1-fabs(s[d])); }
        t=D==2?obbox_axis_test_2(&o2[e],y):obbox_axis_test_3(&o3[e],y); CHECK((t>=0)==ax,"axis-aligned test of a point %s the box gives %g",ax?"inside":"outside",t);
        t=D==2?obbox_test_2(&o2[e],y):obbox_test_3(&o3[e],y); if(mn>1e-9) CHECK((t>=0)==(ax&&in),"box test of a point %s the box gives %g",ax&&in?"inside":"outside",t); }
    }
    sim_count("elements_boxed",nel); free(o2),free(o3); }
  for(d=0;d<D;++d) free(x[d]),free(z[d]); }
void harness_case(struct simcase *c) { struct rng r={c->seed+5}; if(c->mode==22) poly_case(c); else if(rng_i(&r,0,1)) lob_case(c); else box_case(c); }
