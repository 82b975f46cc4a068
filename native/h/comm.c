/* Reductions and scans over the processes: C07.  mode 7 */
#define GS_ORACLE_ONLY
#include "gs.c"
int harness_np(uint64_t seed,int tier,int mode,int maxnp) { struct rng r={seed}; return rng_i(&r,1,maxnp); }
static uint64_t hsh(uint64_t a,uint64_t b) { struct rng r={a*0x9e3779b97f4a7c15ull^b}; return rng_next(&r); }
#define RMAX 64
void harness_case(struct simcase *c)
{ struct rng g={c->seed^7}; struct comm comm; int rep,np=c->np,me=c->rank,i,q,k;
  comm_init(&comm,MPI_COMM_WORLD); CHECK((int)comm.np==np&&(int)comm.id==me,"comm_init: id/np");
  for(rep=0;rep<6;++rep) { int what=rng_i(&g,0,5),dom=rng_i(&g,0,4),op=rng_i(&g,0,4),vn=rng_i(&g,0,9)?rng_i(&g,1,4):0; size_t s; long long v[RMAX][4],tot[4],ex[4]; int negs=rng_i(&g,0,1);
#ifndef GSLIB_USE_NBC
    if(what==1) what=0;
#endif
    if(what==4) dom=gs_double,op=gs_add; s=dsize(dom);
    if(!me) sim_note("call %d dom=%s op=%s vn=%d ",what,domn[dom],opn[op],vn);
    for(q=0;q<np;++q) for(k=0;k<4;++k) { struct rng h={hsh(c->seed+rep*977,q*8+k)}; switch(op) { case gs_mul: v[q][k]=(rng_i(&h,0,5)==0?2:1)*(rng_i(&h,0,1)?1:-1); break; case gs_bpr: v[q][k]=rng_i(&h,0,3)?(5<<rng_i(&h,0,6))+rng_i(&h,0,3):0; break; case gs_add: v[q][k]=rng_i(&h,-1000,1000); break; default: v[q][k]=dom>=gs_long?((long long)rng_i(&h,-5,5)*(1ll<<40))+rng_i(&h,0,9):rng_i(&h,-99999,99999); if(negs) v[q][k]=-llabs(v[q][k]); } }
    for(k=0;k<4;++k) { tot[k]=v[0][k]; for(q=1;q<np;++q) tot[k]=red(op,tot[k],v[q][k]); if(me) { ex[k]=v[0][k]; for(q=1;q<me;++q) ex[k]=red(op,ex[k],v[q][k]); } }
    switch(what) {
    case 0: case 1: { void *a=xa(s*vn),*b=xa(s*vn); for(k=0;k<vn;++k) put(a,dom,k,v[me][k]);
      if(what==0) comm_allreduce(&comm,dom,op,a,vn,b); else { comm_req rq; comm_iallreduce(&rq,&comm,dom,op,a,vn,b); comm_wait(&rq,1); }
      for(k=0;k<vn;++k) CHECK(is(what?b:a,dom,k,tot[k]),"%sall-reduce over %d processes: component %d is %g on process %d, expected %lld",what?"non-blocking ":"",np,k,get(what?b:a,dom,k),me,tot[k]); free(a),free(b); break; }
    case 2: { void *in=xa(s*vn),*out=xa(2*s*vn),*b=xa(2*s*vn); for(k=0;k<vn;++k) put(in,dom,k,v[me][k]);
      comm_scan(out,&comm,dom,op,in,vn,b);
      for(k=0;k<vn;++k) { CHECK(is(out,dom,vn+k,tot[k]),"scan over %d processes: total component %d is %g on process %d, expected %lld",np,k,get(out,dom,vn+k),me,tot[k]);
        if(me==0) CHECK(is_identity(out,dom,k,op),"scan: component %d on process 0 is %g, not the identity",k,get(out,dom,k)); else CHECK(is(out,dom,k,ex[k]),"scan over %d processes: component %d on process %d is %g, expected %lld",np,k,me,get(out,dom,k),ex[k]);
        CHECK(is(in,dom,k,v[me][k]),"scan changed its input"); }
      free(in),free(out),free(b); break; }
    case 3: { /* every process has its own number of elements */
      uint n[RMAX]; long long t=0; int have=0; void *in,*out=xa(s); for(q=0;q<np;++q) { n[q]=hsh(c->seed+rep,q+500)%5; for(k=0;k<(int)n[q];++k) { long long x=v[q][k&3]; t=have?red(op,t,x):x; have=1; } }
      in=xa(s*n[me]); for(k=0;k<(int)n[me];++k) put(in,dom,k,v[me][k&3]);
      switch(dom) { case gs_double: *(double*)out=comm_reduce_double(&comm,op,in,n[me]); break; case gs_float: *(float*)out=comm_reduce_float(&comm,op,in,n[me]); break; case gs_int: *(int*)out=comm_reduce_int(&comm,op,in,n[me]); break; case gs_long: *(long*)out=comm_reduce_long(&comm,op,in,n[me]); break; default: *(long long*)out=comm_reduce_long_long(&comm,op,in,n[me]); }
      if(have) CHECK(is(out,dom,0,t),"reduce over %d processes gives %g on process %d, expected %lld",np,get(out,dom,0),me,t); else CHECK(is_identity(out,dom,0,op),"reduction of nothing gives %g, not the identity",get(out,dom,0));
      free(in),free(out); break; }
    case 4: { double *x,*y,t=0,d; uint n[RMAX]; for(q=0;q<np;++q) { n[q]=hsh(c->seed+rep,q+700)%6; for(k=0;k<(int)n[q];++k) t+=(double)((int)(hsh(c->seed,q*64+k)%41)-20)*((int)(hsh(c->seed,q*64+k+32)%41)-20); }
      x=XA(double,n[me]),y=XA(double,n[me]); for(k=0;k<(int)n[me];++k) x[k]=(int)(hsh(c->seed,me*64+k)%41)-20,y[k]=(int)(hsh(c->seed,me*64+k+32)%41)-20;
      d=comm_dot(&comm,x,y,n[me]); CHECK(d==t,"dot product over %d processes is %g on process %d, expected %g",np,d,me,t); free(x),free(y); break; }
    default: { /* communicators derived from this one, broadcast and gather */
      struct comm d; char *p=xa(s),*o; int root=rng_i(&g,0,np-1),sub=rng_i(&g,0,2),bin=sub==2?(int)(hsh(c->seed+rep,me)%3):0,e; int m[RMAX],nm=0;
      if(sub==0) { put(p,dom,0,v[me][0]); comm_bcast(&comm,p,s,root); CHECK(is(p,dom,0,v[root][0]),"broadcast from %d gives %g on %d",root,get(p,dom,0),me); free(p); break; }
      if(sub==1) { put(p,dom,0,v[me][0]); o=xa(s*np); comm_gather(&comm,p,s,o,s,root); if(me==root) for(q=0;q<np;++q) CHECK(is(o,dom,q,v[q][0]),"gather on %d: element %d is %g",root,q,get(o,dom,q)); free(o),free(p); break; }
      for(q=0;q<np;++q) if((int)(hsh(c->seed+rep,q)%3)==bin) m[nm++]=q;
      comm_split(&comm,bin,me,&d); CHECK((int)d.np==nm,"split: %d processes, expected %d",(int)d.np,nm); for(e=0;m[e]!=me;++e); CHECK((int)d.id==e,"split: id %d, expected %d",(int)d.id,e);
      put(p,dom,0,v[me][0]); o=xa(s); comm_allreduce(&d,dom,op,p,1,o); { long long t=v[m[0]][0]; for(i=1;i<nm;++i) t=red(op,t,v[m[i]][0]); CHECK(is(p,dom,0,t),"all-reduce on a split communicator gives %g, expected %lld",get(p,dom,0),t); }
      comm_free(&d); free(o),free(p); break; } }
    sim_count("reductions",1); }
  sim_checkpoint();
  comm_free(&comm); }
