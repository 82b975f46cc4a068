/* Dense products and tensor-product interpolation: C16.  mode 16 (one process).  Small integer data: every
   result is exact, so any order of summation must give the same value. */
#include "common.h"
int harness_np(uint64_t s,int t,int m,int mx) { return 1; }
static double *mk(struct rng *r,size_t n) { double *p=XA(double,n); size_t i; for(i=0;i<n;++i) p[i]=rng_i(r,-9,9); return p; }
static double *out(size_t n) { double *p=XA(double,n); size_t i; for(i=0;i<n;++i) p[i]=NAN; return p; }
#define EQ(a,b,...) CHECK((a)==(b),__VA_ARGS__)
static int sz(struct rng *r) { return rng_i(r,0,7)?rng_i(r,1,6):rng_i(r,7,20); }
void harness_case(struct simcase *c)
{ struct rng r={c->seed}; int what=rng_i(&r,0,12),i,j,k,a,b,d,m=sz(&r),n=sz(&r),l=sz(&r),mr=sz(&r),ms=sz(&r),mt=sz(&r); static const char *nm[]={"dot","mxv","mtxv","mxm","mtxm","i1","i2","i3","ig1","ig2","ig3","2t","3t"};
  if(what==12||what==7||what==10) m=rng_i(&r,1,6),n=rng_i(&r,1,6),l=rng_i(&r,1,6),mr=rng_i(&r,1,6),ms=rng_i(&r,1,6),mt=rng_i(&r,1,6);
  sim_note("%s m=%d n=%d l=%d mr=%d ms=%d mt=%d ",nm[what],m,n,l,mr,ms,mt); sim_count(nm[what],1);
  switch(what) {
  case 0: { double *x,*y,s=0; if(rng_i(&r,0,9)==0) m=0; x=mk(&r,m),y=mk(&r,m); for(i=0;i<m;++i) s+=x[i]*y[i]; EQ(tensor_dot(x,y,m),s,"dot"); free(x),free(y); break; }
  case 1: { double *A=mk(&r,m*n),*x=mk(&r,n),*y=out(m); tensor_mxv(y,m,A,x,n); for(i=0;i<m;++i) { double s=0; for(j=0;j<n;++j) s+=A[i+j*m]*x[j]; EQ(y[i],s,"matrix-vector product, entry %d",i); } free(A),free(x),free(y); break; }
  case 2: { double *A=mk(&r,m*n),*x=mk(&r,n),*y=out(m); tensor_mtxv(y,m,A,x,n); for(i=0;i<m;++i) { double s=0; for(j=0;j<n;++j) s+=A[j+i*n]*x[j]; EQ(y[i],s,"transposed matrix-vector product, entry %d",i); } free(A),free(x),free(y); break; }
  case 3: { double *A=mk(&r,m*n),*B=mk(&r,n*l),*C=out(m*l); tensor_mxm(C,m,A,n,B,l); for(i=0;i<m;++i) for(k=0;k<l;++k) { double s=0; for(j=0;j<n;++j) s+=A[i+j*m]*B[j+k*n]; EQ(C[i+k*m],s,"matrix product, entry %d,%d",i,k); } free(A),free(B),free(C); break; }
  case 4: { double *A=mk(&r,m*n),*B=mk(&r,n*l),*C=out(m*l); tensor_mtxm(C,m,A,n,B,l); for(i=0;i<m;++i) for(k=0;k<l;++k) { double s=0; for(j=0;j<n;++j) s+=A[j+i*n]*B[j+k*n]; EQ(C[i+k*m],s,"transposed matrix product, entry %d,%d",i,k); } free(A),free(B),free(C); break; }
  case 5: case 6: case 7: { int nd=what-4; int n1=m,n2=nd>1?n:1,n3=nd>2?l:1; double *J1=mk(&r,n1),*J2=mk(&r,n2),*J3=mk(&r,n3),*u=mk(&r,n1*n2*n3),*w=out(nd==2?n2:n2*n3+n3),s=0,v;
    for(k=0;k<n3;++k) for(j=0;j<n2;++j) for(i=0;i<n1;++i) s+=J1[i]*(nd>1?J2[j]:1)*(nd>2?J3[k]:1)*u[i+n1*(j+n2*k)];
    v=nd==1?tensor_i1(J1,n1,u):nd==2?tensor_i2(J1,n1,J2,n2,u,w):tensor_i3(J1,n1,J2,n2,J3,n3,u,w); EQ(v,s,"%d-d interpolation: %g instead of %g",nd,v,s); free(J1),free(J2),free(J3),free(u),free(w); break; }
  case 8: case 9: case 10: { int nd=what-7; int n1=m,n2=nd>1?n:1,n3=nd>2?l:1; double *w1=mk(&r,2*n1),*w2=mk(&r,2*n2),*w3=mk(&r,2*n3),*u=mk(&r,n1*n2*n3),*w=out(nd==2?2*n1:2*n1*n2+3*n1),s[4]={0,0,0,0},v,*g=out(nd);
    for(k=0;k<n3;++k) for(j=0;j<n2;++j) for(i=0;i<n1;++i) { double U=u[i+n1*(j+n2*k)],a1=w1[i],b1=w1[n1+i],a2=nd>1?w2[j]:1,b2=nd>1?w2[n2+j]:0,a3=nd>2?w3[k]:1,b3=nd>2?w3[n3+k]:0; s[0]+=a1*a2*a3*U; s[1]+=b1*a2*a3*U; s[2]+=a1*b2*a3*U; s[3]+=a1*a2*b3*U; }
    v=nd==1?tensor_ig1(g,w1,n1,u):nd==2?tensor_ig2(g,w1,n1,w2,n2,u,w):tensor_ig3(g,w1,n1,w2,n2,w3,n3,u,w);
    EQ(v,s[0],"%d-d interpolation with gradient: value %g instead of %g",nd,v,s[0]); for(i=0;i<nd;++i) EQ(g[i],s[1+i],"%d-d gradient component %d: %g instead of %g",nd,i,g[i],s[1+i]); free(w1),free(w2),free(w3),free(u),free(w),free(g); break; }
  case 11: { int nr=m,ns=n; double *J=mk(&r,mr*nr),*K=mk(&r,ms*ns),*u=mk(&r,mr*ms),*o=out(nr*ns),*w=out(nr*ms); tensor_2t(o,J,nr,mr,K,ns,ms,u,w);
    for(i=0;i<nr;++i) for(j=0;j<ns;++j) { double s=0; for(a=0;a<mr;++a) for(b=0;b<ms;++b) s+=J[a+i*mr]*K[b+j*ms]*u[a+b*mr]; EQ(o[i+j*nr],s,"2-d tensor product, entry %d,%d",i,j); } free(J),free(K),free(u),free(o),free(w); break; }
  default: { int nr=m,ns=n,nt=l; double *J=mk(&r,mr*nr),*K=mk(&r,ms*ns),*L=mk(&r,mt*nt),*u=mk(&r,mr*ms*mt),*o=out(nr*ns*nt),*w=out(nr*(ms+ns)*mt); tensor_3t(o,J,nr,mr,K,ns,ms,L,nt,mt,u,w);
    for(i=0;i<nr;++i) for(j=0;j<ns;++j) for(k=0;k<nt;++k) { double s=0; for(a=0;a<mr;++a) for(b=0;b<ms;++b) for(d=0;d<mt;++d) s+=J[a+i*mr]*K[b+j*ms]*L[d+k*mt]*u[a+mr*(b+ms*d)]; EQ(o[i+nr*(j+ns*k)],s,"3-d tensor product, entry %d,%d,%d",i,j,k); } free(J),free(K),free(L),free(u),free(o),free(w); break; } }
}
