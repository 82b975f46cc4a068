/* Message routing: executable form of the contracts of C11 (crystal router), C12
   (record transfer), C13 (capacity-limited transfer).  mode: 11, 12, 13 */
#include "common.h"
#define NPMAX 40
int harness_np(uint64_t seed, int tier, int mode, int maxnp)
{ struct rng r={seed}; int k=rng_i(&r,0,9), np; if(k<1) np=1; else if(k<7) np=rng_i(&r,2,7); else np=rng_i(&r,2,maxnp); return np>maxnp?maxnp:np; }

/* ledger of everything sent, shared by the ranks through the board */
struct item { uint src, dst, len, got; uint64_t ser; };
static uint64_t mix2(uint64_t a, uint64_t b) { struct rng r={a*0x9e3779b97f4a7c15ull^b}; return rng_next(&r); }
static unsigned char pay(uint64_t ser, size_t i) { return (unsigned char)(mix2(ser,i/8)>>(8*(i%8))); }

static int dest(struct rng *r, int style, int np, int rank)
{ switch(style) { case 0: return rng_i(r,0,np-1); case 1: return np-1; case 2: return 0; case 3: return rank; case 4: return np-1-rank;
  case 5: return (rank+1)%np; default: return rng_i(r,0,2)?rank:rng_i(r,0,np-1); } }

static void raw(struct simcase *c)
{
  struct rng r={mix2(c->seed,c->rank+1000)}, g={c->seed^77}; struct comm comm; struct crystal cr; int rep,nrep=rng_i(&g,1,3); void **b=sim_board();
  int np=c->np, rank=c->rank;
  comm_init(&comm,MPI_COMM_WORLD); crystal_init(&cr,&comm);
  for(rep=0;rep<nrep;++rep) {
    int style=rng_i(&g,0,6), big=rng_i(&g,0,9)==0, m=rng_i(&r,0,6)==0?0:rng_i(&r,0,big?60:10), i,q; size_t tot=0; uint *p; struct item *it=XA(struct item,m+1);
    if(!rank) sim_note("round%d style=%d ",rep,style);
    for(i=0;i<m;++i) { it[i].src=rank; it[i].dst=dest(&r,style,np,rank); it[i].len=rng_i(&r,0,5)==0?0:rng_i(&r,1,big?300:12); it[i].got=0; it[i].ser=((uint64_t)(rank+1)<<32)|(rep<<20)|i; if(it[i].len==1) it[i].len=2; tot+=3+it[i].len; }
    it[m].len=UINT_MAX;
    buffer_reserve(&cr.data,tot*sizeof(uint)); p=cr.data.ptr; cr.data.n=tot;
    for(i=0;i<m;++i) { uint k; *p++=it[i].dst, *p++=it[i].src, *p++=it[i].len; for(k=0;k<it[i].len;++k) *p++ = k==0?(uint)(it[i].ser>>32):k==1?(uint)it[i].ser:(uint)mix2(it[i].ser,k); }
    b[rank]=it; sim_barrier();
    crystal_router(&cr);
    CHECK(cr.data.n<=cr.data.max/sizeof(uint)||cr.data.n==0,"router claims %zu words in a buffer of %zu bytes",cr.data.n,cr.data.max);
    { const uint *q_=cr.data.ptr,*e=q_+cr.data.n; size_t zero=0;
      while(q_<e) { uint dst,src,len,k; struct item *o;
        CHECK(e-q_>=3,"received data ends inside a message header");
        dst=q_[0],src=q_[1],len=q_[2]; q_+=3;
        CHECK(dst==(uint)rank,"message for process %u delivered to %d",dst,rank);
        CHECK(src<(uint)np,"message carries the unknown source %u",src);
        CHECK(len<=(size_t)(e-q_),"received data ends inside a message body");
        o=b[src];
        if(len==0) { for(;o->len!=UINT_MAX;++o) if(o->len==0&&o->dst==(uint)rank&&!o->got) break; CHECK(o->len!=UINT_MAX,"an empty message from %u to %d was not sent, or arrived twice",src,rank); o->got=1; ++zero; continue; }
        { uint64_t ser=((uint64_t)q_[0]<<32)|q_[1]; for(;o->len!=UINT_MAX;++o) if(o->ser==ser&&o->len) break; 
          CHECK(o->len!=UINT_MAX,"message from %u to %d was never sent by %u (contents corrupted)",src,rank,src);
          CHECK(!o->got,"message from %u to %d delivered twice",src,rank);
          CHECK(o->len==len,"message from %u to %d arrived with length %u, sent with %u",src,rank,len,o->len);
          CHECK(o->dst==(uint)rank,"message from %u for %u delivered to %d",src,o->dst,rank);
          for(k=2;k<len;++k) CHECK(q_[k]==(uint)mix2(ser,k),"message from %u to %d: word %u changed in transit",src,rank,k);
          o->got=1; q_+=len; } }
      sim_count("messages_routed",m); }
    sim_barrier();
    if(!rank) for(q=0;q<np;++q) { struct item *o=b[q]; for(;o->len!=UINT_MAX;++o) CHECK(o->got,"message from %u to %u (length %u) was lost",o->src,o->dst,o->len); }
    sim_checkpoint();
    free(it);
  }
  crystal_free(&cr); comm_free(&comm);
}

/* records: byte layout [.. proc at p_off ..]; other bytes are pay(serial, byte), the first 8
   free bytes of the record hold the serial when it is long enough */
struct rec { uint64_t ser; uint dst; int got; };
static void transfer(struct simcase *c, int fixedmode)
{
  struct rng r={mix2(c->seed,c->rank+1000)}, g={c->seed^77}; struct comm comm; struct crystal cr; int rep,nrep=rng_i(&g,1,3); void **b=sim_board();
  int np=c->np, rank=c->rank;
  comm_init(&comm,MPI_COMM_WORLD); crystal_init(&cr,&comm);
  for(rep=0;rep<nrep;++rep) {
    int style=rng_i(&g,0,6), ext=rng_i(&g,0,2)==0, set_src=rng_i(&g,0,1), An=rng_i(&g,1,3), back=rng_i(&g,0,1)&&!ext&&set_src&&!fixedmode, i,k,api=rng_i(&g,0,1); unsigned size[3], p_off;
    int m=rng_i(&r,0,6)==0?0:rng_i(&r,0,rng_i(&r,0,9)?12:200), pass; struct array A[3], *Ap[3]={&A[0],&A[1],&A[2]}; struct rec *rc=XA(struct rec,m+1); uint *proc=XA(uint,m), ret; size_t max=0;
    unsigned stride=sizeof(uint);
    unsigned small=rng_i(&g,0,7)==0;
    size[0]=small?4:rng_i(&g,0,3)==0?(unsigned)rng_i(&g,4,40):4*(unsigned)rng_i(&g,1,10); for(k=1;k<3;++k) size[k]=rng_i(&g,0,4)==0?0:(unsigned)rng_i(&g,1,33);
    if(small) size[1]=size[2]=0; if(An==1) size[1]=size[2]=0;
    p_off=rng_i(&g,0,size[0]-4); if(size[0]%4==0) p_off&=~3u; else if(!ext) size[0]=(size[0]+3)&~3u, p_off&=~3u;
    if(!rank) sim_note("%s round%d style=%d ext=%d set_src=%d An=%d size=%u,%u,%u p_off=%u ",fixedmode?"fixed":"transfer",rep,style,ext,set_src,An,size[0],size[1],size[2],p_off);
    for(i=0;i<m;++i) rc[i].ser=((uint64_t)(rank+1)<<32)|((uint64_t)rep<<20)|i, rc[i].dst=proc[i]=dest(&r,style,np,rank), rc[i].got=0;
    rc[m].dst=UINT_MAX; b[rank]=rc; b[100+rank]=&rc[m];
    if(fixedmode) { /* every process has its own capacity, at least its own number of records */
      max=m+(rng_i(&r,0,2)?rng_i(&r,0,20):0); }
    for(k=0;k<An;++k) { A[k].n=m; A[k].max=fixedmode?max+(k?rng_i(&r,0,3):0):(size_t)m; A[k].ptr=xa(A[k].max*size[k]); }
    if(fixedmode&&An>1&&rng_i(&r,0,3)==0) { A[0].max+=2; A[0].ptr=realloc(A[0].ptr,A[0].max*size[0]+1); }
    if(fixedmode) { max=A[0].max; for(k=1;k<An;++k) if(A[k].max<max) max=A[k].max; }
    for(i=0;i<m;++i) { size_t j,o=0; for(k=0;k<An;++k) { unsigned char *p=(unsigned char*)A[k].ptr+(size_t)i*size[k]; for(j=0;j<size[k];++j,++o) p[j]= o<8?0:pay(rc[i].ser,o); }
      /* serial: spread over the bytes in order, skipping the process field */
      { size_t q=0,o2=0; for(k=0;k<An;++k) { unsigned char *p=(unsigned char*)A[k].ptr+(size_t)i*size[k]; for(j=0;j<size[k];++j,++o2) { if(k==0&&!ext&&j>=p_off&&j<p_off+4) continue; if(q<8) p[j]=(unsigned char)(rc[i].ser>>(8*q)); else p[j]=pay(rc[i].ser,q); ++q; } } }
      if(!ext) memcpy((char*)A[0].ptr+(size_t)i*size[0]+p_off,&proc[i],4); }
    sim_barrier();
    for(pass=0;pass<(back?2:1);++pass) {
      size_t expect_n=0,nn; int q;
      /* number of records that must arrive here */
      if(pass==0) { for(q=0;q<np;++q) { struct rec *o=b[q]; for(;o->dst!=UINT_MAX;++o) if(o->dst==(uint)rank) ++expect_n; } } else expect_n=m;
      if(api==0&&!fixedmode&&An==1) { if(ext) sarray_transfer_ext_(&A[0],size[0],proc,stride,&cr); else sarray_transfer_(&A[0],size[0],p_off,set_src,&cr); ret=A[0].n; }
      else ret=sarray_transfer_many(Ap,size,An,fixedmode,ext,set_src,p_off,ext?proc:(uint*)((char*)A[0].ptr+p_off),ext?stride:size[0],&cr);
      CHECK(ret==expect_n,"%zu records were sent to process %d, the call reports %u",expect_n,rank,ret);
      nn=fixedmode&&expect_n>max?max:expect_n;
      for(k=0;k<An;++k) { CHECK(A[k].n==nn,"array %d holds %zu records, expected %zu",k,A[k].n,nn); CHECK(A[k].max>=A[k].n,"array %d: %zu records in a capacity of %zu",k,A[k].n,A[k].max); }
      if(fixedmode) sim_count(expect_n>max?"over_capacity":"within_capacity",1);
      for(i=0;i<(int)nn;++i) { uint64_t ser=0; size_t q_=0,j; uint fld=0; int src; struct rec *o; uint idx; unsigned nb=0;
        for(k=0;k<An;++k) nb+=size[k]; if(!ext) nb-=4;
        if(!ext) memcpy(&fld,(char*)A[0].ptr+(size_t)i*size[0]+p_off,4);
        for(k=0;k<An;++k) { unsigned char *p=(unsigned char*)A[k].ptr+(size_t)i*size[k]; for(j=0;j<size[k];++j) { if(k==0&&!ext&&j>=p_off&&j<p_off+4) continue; if(q_<8) ser|=(uint64_t)p[j]<<(8*q_); ++q_; } }
        if(!ext) { if(set_src) CHECK(fld<(uint)np,"record %d: process field is %u",i,fld); else CHECK(fld==(uint)rank,"record %d: process field is %u, expected the own rank",i,fld); }
        if(nb<8) { /* too short to identify: check as a multiset, by source when known */
          int s0=(!ext&&set_src)?(int)fld:0, s1=(!ext&&set_src)?(int)fld:np-1, found=0; for(src=s0;src<=s1&&!found;++src) { for(o=b[src];o->dst!=UINT_MAX;++o) { uint64_t mask=nb?(~0ull>>(64-8*nb)):0; if(o->got==pass&&(pass?src==(int)fld||1:o->dst==(uint)rank)&&(o->ser&mask)==ser) { if(pass&&src!=rank) continue; o->got=pass+1; found=1; break; } }
            }
          if(!pass) CHECK(found,"record %d was not sent to process %d",i,rank);
          continue; }
        src=(int)(ser>>32)-1; idx=ser&0xfffff;
        CHECK(src>=0&&src<np&&idx<(size_t)((struct rec*)b[100+src]-(struct rec*)b[src])&&((struct rec*)b[src])[idx].ser==ser,"record %d carries an identity that was never sent",i);
        o=&((struct rec*)b[src])[idx];
        if(pass==0) { CHECK(o->dst==(uint)rank,"record %u of process %d, addressed to %u, arrived at %d",idx,src,o->dst,rank);
          if(!ext&&set_src) CHECK(fld==(uint)src,"record from %d is marked as coming from %u",src,fld); }
        else { CHECK(src==rank,"after the return transfer process %d holds a record of %d",rank,src); CHECK(fld==o->dst,"after the return transfer the process field is %u, originally %u",fld,o->dst); }
        CHECK(o->got==pass,"record %u of process %d was delivered twice",idx,src); o->got=pass+1;
        q_=0; for(k=0;k<An;++k) { unsigned char *p=(unsigned char*)A[k].ptr+(size_t)i*size[k]; for(j=0;j<size[k];++j) { if(k==0&&!ext&&j>=p_off&&j<p_off+4) continue; if(q_>=8) CHECK(p[j]==pay(ser,q_),"record %u of process %d: byte %zu of array %d changed in transit",idx,src,j,k); ++q_; } }
      }
      sim_count("records_checked",nn);
      sim_checkpoint();
      if(!rank&&!fixedmode) { unsigned nb=0; for(k=0;k<An;++k) nb+=size[k]; if(!ext) nb-=4; if(!(pass&&nb<8)) for(q=0;q<np;++q) { struct rec *o=b[q]; for(;o->dst!=UINT_MAX;++o) CHECK(o->got==pass+1,"record %d of process %d, addressed to %u, was lost",(int)(o-(struct rec*)b[q]),q,o->dst); } }
      sim_barrier();
    }
    for(k=0;k<An;++k) free(A[k].ptr); free(rc); free(proc);
  }
  crystal_free(&cr); comm_free(&comm);
}
void harness_case(struct simcase *c) { if(c->mode==11) raw(c); else transfer(c,c->mode==13); }
