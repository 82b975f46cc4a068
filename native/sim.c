/* Simulated MPI + case driver.  Build: main program, exports symbols (-rdynamic). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <ucontext.h>
#include <setjmp.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include "mpi.h"
#include "sim.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define ASAN 1
#endif
#ifdef ASAN
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

#define MAXNP 64
#define STACK (8u<<20)
#define MAXCOMM 4096

static FILE *res;                 /* where verdicts go (the real stdout) */
static struct simcase cur;
static char notes[1<<16]; static size_t notes_n;
static int failed=0;

/* ---------------------------------------------------------------- ranks */
enum { R_READY, R_BLOCKED, R_DONE };
static struct rankst {
  ucontext_t ctx; char *stack; void *fake;
  int state; uint64_t seen;
  jmp_buf *exit_jmp; void *so;
  void (*hcase)(struct simcase*); int (*hnp)(uint64_t,int,int,int);
  const char *where;
} rk[MAXNP];
static ucontext_t sched_ctx; static void *sched_fake; static const void *sched_bottom; static size_t sched_size;
static int me=-1, np;
static uint64_t progress=1;
static struct rng srng;
static int sendmode;   /* 0 eager, 1 rendezvous, 2 mixed */
static void *board[1024];

static void report(const char *kind, const char *fmt, va_list ap)
{
  char b[2048]; vsnprintf(b,sizeof b,fmt,ap);
  fprintf(res,"FAIL kind=%s index=%ld seed=%llu np=%d rank=%d mode=%d tier=%d: %s\n",kind,cur.index,
    (unsigned long long)cur.seed,np,me,cur.mode,cur.tier,b);
  if(notes_n) fprintf(res,"NOTE %s\n",notes);
  fflush(res);
}
void sim_fail(const char *fmt, ...)
{ va_list ap; va_start(ap,fmt); report("property",fmt,ap); va_end(ap); failed=1; _exit(3); }
static void mpi_fail(const char *fmt, ...) __attribute__((format(printf,1,2),noreturn));
static void mpi_fail(const char *fmt, ...)
{ va_list ap; va_start(ap,fmt); report("communication",fmt,ap); va_end(ap); failed=1; _exit(3); }
void sim_note(const char *fmt, ...)
{ va_list ap; va_start(ap,fmt); int n;
  if(notes_n+2<sizeof notes) {
    n=vsnprintf(notes+notes_n,sizeof notes-notes_n,fmt,ap);
    if(n>0) { notes_n+=n; if(notes_n>=sizeof notes) notes_n=sizeof notes-1; } }
  va_end(ap); }
#define MAXC 256
static struct { char k[64]; long n; } cnt[MAXC]; static int ncnt;
void sim_count(const char *key, long n)
{ int i; for(i=0;i<ncnt;++i) if(!strcmp(cnt[i].k,key)) { cnt[i].n+=n; return; }
  if(ncnt<MAXC) { snprintf(cnt[ncnt].k,64,"%s",key); cnt[ncnt++].n=n; } }
void **sim_board(void) { return board; }

static void dieinfo(const char *kind)
{ char b[512]; int n=snprintf(b,sizeof b,"FAIL kind=%s index=%ld seed=%llu np=%d rank=%d mode=%d tier=%d: %s\n",
    kind,cur.index,(unsigned long long)cur.seed,np,me,cur.mode,cur.tier,
    !strcmp(kind,"hang")?"the call did not return":"memory error or undefined behaviour (see sanitizer report)");
  if(write(fileno(res),b,n)<0) {}
  if(notes_n) { if(write(fileno(res),"NOTE ",5)<0){} if(write(fileno(res),notes,notes_n)<0){} if(write(fileno(res),"\n",1)<0){} } }
static void on_death(void) { if(!failed) { failed=1; dieinfo("memory"); } }
static void on_alarm(int s) { if(!failed) { failed=1; dieinfo("hang"); } _exit(3); }
static void on_crash(int s) { if(!failed) { failed=1; dieinfo("crash"); } _exit(3); }

static void to_sched(void)
{
  int r=me;
#ifdef ASAN
  __sanitizer_start_switch_fiber(rk[r].state==R_DONE?0:&rk[r].fake,sched_bottom,sched_size);
#endif
  swapcontext(&rk[r].ctx,&sched_ctx);
#ifdef ASAN
  __sanitizer_finish_switch_fiber(rk[r].fake,&sched_bottom,&sched_size);
#endif
  me=r;
}
static void block(const char *where) { rk[me].state=R_BLOCKED; rk[me].seen=progress; rk[me].where=where; to_sched(); }
static void maybe_yield(void) { if((rng_next(&srng)&3)==0) { rk[me].state=R_READY; to_sched(); } }

static void entry(int r)
{
  struct simcase c;
#ifdef ASAN
  __sanitizer_finish_switch_fiber(0,&sched_bottom,&sched_size);
#endif
  me=r; c=cur; c.rank=r;
  rk[r].hcase(&c);
  rk[r].state=R_DONE; ++progress;
  to_sched();
}

int sim_expect_exit(void (*f)(void*), void *arg)
{
  jmp_buf jb; int r=me; jmp_buf *old=rk[r].exit_jmp; volatile int ret=0;
  rk[r].exit_jmp=&jb;
  if(setjmp(jb)==0) f(arg); else ret=1;
  rk[r].exit_jmp=old;
  return ret;
}
/* what the code under test gets from malloc: contents differ from process to process and from case to case */
void *sim_malloc(size_t n)
{ static const unsigned char pat[5]={0x7f,0x00,0xff,0x41,0xbe}; void *p=malloc(n); if(p) memset(p,pat[(unsigned)(me+cur.seed%5)%5],n<((size_t)1<<22)?n:(size_t)1<<22); return p; }
void sim_exit(int status)
{
  if(me>=0 && rk[me].exit_jmp) {
#ifdef ASAN
    __asan_handle_no_return();
#endif
    longjmp(*rk[me].exit_jmp,1);
  }
  mpi_fail("the library aborted (exit status %d)",status);
}

/* ---------------------------------------------------------------- communicators */
static struct cm { int live, n, ctx; int ranks[MAXNP]; char freed[MAXNP]; } cm[MAXCOMM]; static int ncm;
static int ctxs;
static struct cm *C(MPI_Comm c)
{ if(c<0||c>=ncm||!cm[c].live) mpi_fail("use of an invalid communicator (%d)",c);
  if(cm[c].freed[me]) mpi_fail("use of a freed communicator (%d)",c);
  return &cm[c]; }
static int crank(struct cm *c, int world) { int i; for(i=0;i<c->n;++i) if(c->ranks[i]==world) return i; return -1; }

/* ---------------------------------------------------------------- point to point */
struct msg { int used, src,dst,tag,ctx; size_t len; const void *ptr; void *copy; struct rcv *to; int delivered, own; uint64_t order; };
struct rcv { int used, src,dst,tag,ctx; size_t cap, got; void *ptr; struct msg *from; int done; uint64_t order; };
enum { Q_FREE=0, Q_SEND, Q_RECV, Q_COLL };
struct coll;
static struct rq { int kind, owner; struct msg *m; struct rcv *r; struct coll *c; void *out; } *rq; static int nrq, rqmax;
static struct msg **ms; static int nms, msmax; static struct rcv **rs; static int nrs, rsmax;
static uint64_t order=0;
static long n_msgs=0;

static size_t tsize(MPI_Datatype t)
{ switch(t) { case MPI_UNSIGNED_CHAR: case MPI_BYTE: return 1; case MPI_DOUBLE: return 8; case MPI_FLOAT: return 4;
  case MPI_INT: case MPI_UNSIGNED: return 4; case MPI_LONG: case MPI_LONG_LONG: return 8; }
  mpi_fail("invalid datatype %d",t); }
static void deliver(struct msg *m)
{ struct rcv *r=m->to; const void *s=m->copy?m->copy:m->ptr;
  if(m->delivered) return;
  if(m->len>r->cap) mpi_fail("message truncated: %zu bytes sent by %d to %d tag %d, receive holds %zu",m->len,m->src,m->dst,m->tag,r->cap);
  if(m->len) memcpy(r->ptr,s,m->len);
  r->got=m->len; r->done=1; m->delivered=1; ++progress; }
static void reap(void)
{ int i,j=0; for(i=0;i<nms;++i) { struct msg *m=ms[i]; if(m->delivered && !m->own) { free(m->copy); free(m); } else ms[j++]=m; } nms=j;
  for(i=j=0;i<nrs;++i) { if(rs[i]->used) rs[j++]=rs[i]; else free(rs[i]); } nrs=j; }
static void match(void)
{ int i,k;
  for(i=0;i<nrs;++i) { struct rcv *r=rs[i]; if(!r->used||r->from) continue;
    for(k=0;k<nms;++k) { struct msg *m=ms[k];
      if(m->to||m->ctx!=r->ctx||m->dst!=r->dst) continue;
      if((r->src!=MPI_ANY_SOURCE&&m->src!=r->src)||(r->tag!=MPI_ANY_TAG&&m->tag!=r->tag)) continue;
      m->to=r, r->from=m; ++progress;
      if(rng_next(&srng)&1) deliver(m);
      break; } } }
static struct msg *post_send(const void *p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, int blocking)
{ struct cm *cc=C(c); struct msg *m;
  if(n<0) mpi_fail("send of a negative count %d",n);
  if(dst<0||dst>=cc->n) mpi_fail("send to rank %d outside communicator of size %d",dst,cc->n);
  if(tag<0) mpi_fail("negative tag %d",tag);
  m=calloc(1,sizeof *m); m->used=1; m->src=crank(cc,me); m->dst=cc->ranks[dst]; m->tag=tag; m->ctx=cc->ctx;
  m->len=(size_t)n*tsize(t); m->ptr=p; m->order=++order; m->own=1; ++n_msgs;
  if(sendmode==0||(sendmode==2&&(rng_next(&srng)&1))) { m->copy=malloc(m->len?m->len:1); if(m->len) memcpy(m->copy,p,m->len); }
  else if(m->len) { volatile char x=((const char*)p)[0], y=((const char*)p)[m->len-1]; (void)x,(void)y; }
  if(nms==msmax) { msmax=msmax*2+16; ms=realloc(ms,msmax*sizeof *ms); }
  ms[nms++]=m; ++progress; match(); return m; }
static struct rcv *post_recv(void *p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c)
{ struct cm *cc=C(c); struct rcv *r;
  if(n<0) mpi_fail("receive of a negative count %d",n);
  if(src!=MPI_ANY_SOURCE&&(src<0||src>=cc->n)) mpi_fail("receive from rank %d outside communicator of size %d",src,cc->n);
  r=calloc(1,sizeof *r); r->used=1; r->src=src; r->dst=me; r->tag=tag; r->ctx=cc->ctx;
  r->cap=(size_t)n*tsize(t); r->ptr=p; r->order=++order;
  if(nrs==rsmax) { rsmax=rsmax*2+16; rs=realloc(rs,rsmax*sizeof *rs); }
  rs[nrs++]=r; ++progress; match(); return r; }
static int new_req(void)
{ int i; for(i=0;i<nrq;++i) if(rq[i].kind==Q_FREE) break;
  if(i==nrq) { if(nrq==rqmax) { rqmax=rqmax*2+64; rq=realloc(rq,rqmax*sizeof *rq); } ++nrq; }
  memset(&rq[i],0,sizeof rq[i]); rq[i].owner=me; return i; }
#define RQBASE 0x51000000
int MPI_Isend(const void*p,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*q)
{ struct msg *m=post_send(p,n,t,d,tag,c,0); int i=new_req(); rq[i].kind=Q_SEND; rq[i].m=m; *q=RQBASE+i; maybe_yield(); return 0; }
int MPI_Irecv(void*p,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request*q)
{ struct rcv *r=post_recv(p,n,t,s,tag,c); int i=new_req(); rq[i].kind=Q_RECV; rq[i].r=r; *q=RQBASE+i; maybe_yield(); return 0; }
static int send_done(struct msg *m) { if(m->copy) return 1; if(m->to) { deliver(m); return 1; } return 0; }
static int recv_done(struct rcv *r) { if(r->from&&!r->done) deliver(r->from); return r->done; }
int MPI_Send(const void*p,int n,MPI_Datatype t,int d,int tag,MPI_Comm c)
{ struct msg *m=post_send(p,n,t,d,tag,c,1); while(!send_done(m)) block("MPI_Send"); m->own=0; reap(); return 0; }
int MPI_Recv(void*p,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status*st)
{ struct rcv *r=post_recv(p,n,t,s,tag,c); while(!recv_done(r)) block("MPI_Recv");
  if(st) st->MPI_SOURCE=r->from->src, st->MPI_TAG=r->from->tag, st->MPI_ERROR=0, st->count=(int)r->got;
  r->used=0; reap(); return 0; }

/* ---------------------------------------------------------------- collectives */
enum { K_DUP=1, K_SPLIT, K_FREE, K_BARRIER, K_BCAST, K_ALLREDUCE, K_GATHER, K_ALLGATHER, K_SCAN, K_EXSCAN, K_REDUCE };
static const char *kname[]={"","MPI_Comm_dup","MPI_Comm_split","MPI_Comm_free","MPI_Barrier","MPI_Bcast","MPI_Allreduce","MPI_Gather","MPI_Allgather","MPI_Scan","MPI_Exscan","MPI_Reduce"};
struct coll { int ctx; long seq; int kind,n,arrived,left,root,count,type,op; void *in[MAXNP]; size_t inlen[MAXNP]; int a[MAXNP],b[MAXNP]; int out[MAXNP]; int done; void *acc; struct coll *next; };
static struct coll *colls; static long cseq[MAXCOMM][MAXNP];
static struct coll *join(MPI_Comm c, int kind, int root, int count, int type, int op, const void *in, size_t inlen, int a, int b)
{ struct cm *cc=C(c); long s=cseq[cc->ctx][me]++; struct coll *k; int i=crank(cc,me);
  for(k=colls;k;k=k->next) if(k->ctx==cc->ctx&&k->seq==s) break;
  if(!k) { k=calloc(1,sizeof *k); k->ctx=cc->ctx,k->seq=s,k->kind=kind,k->n=cc->n,k->left=cc->n,k->root=root,k->count=count,k->type=type,k->op=op; k->next=colls; colls=k; }
  if(k->kind!=kind) mpi_fail("collective mismatch: rank %d is in %s, another rank is in %s",i,kname[kind],kname[k->kind]);
  if(k->root!=root||k->count!=count||k->type!=type||k->op!=op) mpi_fail("collective mismatch in %s: root/count/type/op differ between ranks (%d/%d/%d/%d, %d/%d/%d/%d)",kname[kind],root,count,type,op,k->root,k->count,k->type,k->op);
  if(k->in[i]) mpi_fail("rank entered a collective twice");
  k->in[i]=malloc(inlen?inlen:1); if(inlen) memcpy(k->in[i],in,inlen); k->inlen[i]=inlen; k->a[i]=a,k->b[i]=b;
  ++k->arrived; ++progress; return k; }
static void cfree(struct coll *k)
{ struct coll **p; int i; if(--k->left) return;
  for(p=&colls;*p!=k;p=&(*p)->next); *p=k->next;
  for(i=0;i<k->n;++i) free(k->in[i]); free(k->acc); free(k); }
#define REDT(T) do { T*x=acc; const T*y=v; size_t i_; for(i_=0;i_<(size_t)n;++i_) switch(op) { \
  case MPI_SUM: x[i_]=ADD(T,x[i_],y[i_]); break; case MPI_PROD: x[i_]=MUL(T,x[i_],y[i_]); break; \
  case MPI_MIN: if(y[i_]<x[i_]) x[i_]=y[i_]; break; case MPI_MAX: if(y[i_]>x[i_]) x[i_]=y[i_]; break; \
  default: mpi_fail("invalid reduction operation %d",op); } } while(0)
static void reduce(void *acc, const void *v, int n, int type, int op)
{
#define ADD(T,a,b) ((T)((a)+(b)))
#define MUL(T,a,b) ((T)((a)*(b)))
  switch(type) { case MPI_DOUBLE: REDT(double); break; case MPI_FLOAT: REDT(float); break;
#undef ADD
#undef MUL
#define ADD(T,a,b) ((T)((uint64_t)(a)+(uint64_t)(b)))
#define MUL(T,a,b) ((T)((uint64_t)(a)*(uint64_t)(b)))
  case MPI_INT: REDT(int); break; case MPI_UNSIGNED: REDT(unsigned); break; case MPI_LONG: REDT(long); break;
  case MPI_LONG_LONG: REDT(long long); break;
  default: mpi_fail("invalid reduction type %d",type); } }
static int overlap(const void *a, const void *b, size_t n) { const char*x=a,*y=b; return n && x<y+n && y<x+n; }
static void ar_result(struct coll *k, void *out)
{ size_t len=(size_t)k->count*tsize(k->type); int i;
  if(!k->acc) { k->acc=malloc(len?len:1); if(len) memcpy(k->acc,k->in[0],len); for(i=1;i<k->n;++i) reduce(k->acc,k->in[i],k->count,k->type,k->op); }
  if(len) memcpy(out,k->acc,len); }
int MPI_Allreduce(const void*in,void*out,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c)
{ struct coll *k; size_t len;
  if(n<0) mpi_fail("MPI_Allreduce with a negative count %d",n);
  len=(size_t)n*tsize(t); if(in==MPI_IN_PLACE) in=out; else if(overlap(in,out,len)) mpi_fail("MPI_Allreduce with overlapping buffers");
  k=join(c,K_ALLREDUCE,0,n,t,op,in,len,0,0);
  while(k->arrived<k->n) block("MPI_Allreduce"); ar_result(k,out); cfree(k); return 0; }
int MPI_Reduce(const void*in,void*out,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c)
{ struct coll *k=join(c,K_REDUCE,root,n,t,op,in==MPI_IN_PLACE?out:in,(size_t)n*tsize(t),0,0);
  while(k->arrived<k->n) block("MPI_Reduce"); if(crank(C(c),me)==root) ar_result(k,out); cfree(k); return 0; }
static int scan_(int kind,const void*in,void*out,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c)
{ size_t len=(size_t)n*tsize(t); struct coll *k=join(c,kind,0,n,t,op,in==MPI_IN_PLACE?out:in,len,0,0); int i,r=crank(C(c),me);
  while(k->arrived<k->n) block("MPI_Scan");
  if(kind==K_SCAN) { memcpy(out,k->in[0],len); for(i=1;i<=r;++i) reduce(out,k->in[i],n,t,op); }
  else if(r>0) { memcpy(out,k->in[0],len); for(i=1;i<r;++i) reduce(out,k->in[i],n,t,op); }
  cfree(k); return 0; }
int MPI_Scan(const void*in,void*out,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c) { return scan_(K_SCAN,in,out,n,t,op,c); }
int MPI_Exscan(const void*in,void*out,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c) { return scan_(K_EXSCAN,in,out,n,t,op,c); }
int MPI_Iallreduce(const void*in,void*out,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c,MPI_Request*q)
{ struct coll *k; int i; size_t len=(size_t)n*tsize(t); if(in!=MPI_IN_PLACE&&overlap(in,out,len)) mpi_fail("MPI_Iallreduce with overlapping buffers");
  k=join(c,K_ALLREDUCE,1000,n,t,op,in==MPI_IN_PLACE?out:in,len,0,0);
  i=new_req(); rq[i].kind=Q_COLL; rq[i].c=k; rq[i].out=out; *q=RQBASE+i;
  if(len&&in!=MPI_IN_PLACE) memset(out,0xA5,len); /* not valid before completion */
  maybe_yield(); return 0; }
int MPI_Barrier(MPI_Comm c) { struct coll *k=join(c,K_BARRIER,0,0,0,0,0,0,0,0); while(k->arrived<k->n) block("MPI_Barrier"); cfree(k); return 0; }
int MPI_Bcast(void*p,int n,MPI_Datatype t,int root,MPI_Comm c)
{ struct coll *k=join(c,K_BCAST,root,n,t,0,p,(size_t)n*tsize(t),0,0); while(k->arrived<k->n) block("MPI_Bcast");
  memcpy(p,k->in[root],(size_t)n*tsize(t)); cfree(k); return 0; }
int MPI_Gather(const void*in,int n,MPI_Datatype t,void*out,int on,MPI_Datatype ot,int root,MPI_Comm c)
{ struct coll *k=join(c,K_GATHER,root,n,t,0,in,(size_t)n*tsize(t),0,0); int i; while(k->arrived<k->n) block("MPI_Gather");
  if(crank(C(c),me)==root) for(i=0;i<k->n;++i) memcpy((char*)out+(size_t)i*on*tsize(ot),k->in[i],k->inlen[i]); cfree(k); return 0; }
int MPI_Allgather(const void*in,int n,MPI_Datatype t,void*out,int on,MPI_Datatype ot,MPI_Comm c)
{ struct coll *k=join(c,K_ALLGATHER,0,n,t,0,in,(size_t)n*tsize(t),0,0); int i; while(k->arrived<k->n) block("MPI_Allgather");
  for(i=0;i<k->n;++i) memcpy((char*)out+(size_t)i*on*tsize(ot),k->in[i],k->inlen[i]); cfree(k); return 0; }
static int new_comm(void)
{ if(ncm>=MAXCOMM) mpi_fail("communicators exhausted"); memset(&cm[ncm],0,sizeof cm[0]); cm[ncm].live=1; cm[ncm].ctx=ctxs++;
  memset(cseq[cm[ncm].ctx],0,sizeof cseq[0]); return ncm++; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*d)
{ struct coll *k=join(c,K_DUP,0,0,0,0,0,0,0,0); struct cm *cc=C(c); int i; while(k->arrived<k->n) block("MPI_Comm_dup");
  if(!k->done) { int x=new_comm(); cc=C(c); cm[x].n=cc->n; for(i=0;i<cc->n;++i) cm[x].ranks[i]=cc->ranks[i]; k->a[0]=x; k->done=1; }
  *d=k->a[0]; cfree(k); return 0; }
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm*d)
{ struct cm *cc=C(c); int i,j,r=crank(cc,me); struct coll *k=join(c,K_SPLIT,0,0,0,0,0,0,color,key); while(k->arrived<k->n) block("MPI_Comm_split");
  if(!k->done) { k->done=1; for(i=0;i<k->n;++i) k->out[i]=-1;
    for(i=0;i<k->n;++i) if(k->out[i]==-1) { int x; if(k->a[i]<0) { k->out[i]=MPI_COMM_NULL; continue; } x=new_comm(); cc=C(c);
      { int ids[MAXNP],n=0,a,b; for(j=0;j<k->n;++j) if(k->a[j]==k->a[i]) ids[n++]=j, k->out[j]=x;
        for(a=1;a<n;++a) for(b=a;b>0&&k->b[ids[b]]<k->b[ids[b-1]];--b) { int t=ids[b]; ids[b]=ids[b-1]; ids[b-1]=t; }
        cm[x].n=n; for(a=0;a<n;++a) cm[x].ranks[a]=cc->ranks[ids[a]]; } } }
  *d=k->out[r]; cfree(k); return 0; }
int MPI_Comm_free(MPI_Comm*c) { struct cm *cc=C(*c); if(*c==MPI_COMM_WORLD) mpi_fail("MPI_COMM_WORLD freed"); cc->freed[me]=1; *c=MPI_COMM_NULL; return 0; }
int MPI_Comm_rank(MPI_Comm c,int*r) { struct cm *cc=C(c); *r=crank(cc,me); return 0; }
int MPI_Comm_size(MPI_Comm c,int*n) { *n=C(c)->n; return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint c) { return c; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }

static struct rq *Q(MPI_Request q)
{ int i=q-RQBASE; if(i<0||i>=nrq||rq[i].kind==Q_FREE) mpi_fail("wait on an invalid request (%d): never started, or already completed",q);
  if(rq[i].owner!=me) mpi_fail("wait on a request of another rank"); return &rq[i]; }
static int rq_try(struct rq *r)
{ switch(r->kind) { case Q_SEND: return send_done(r->m); case Q_RECV: return recv_done(r->r); case Q_COLL: return r->c->arrived==r->c->n; } return 1; }
static void rq_fin(struct rq *r, MPI_Status *st)
{ switch(r->kind) { case Q_SEND: r->m->own=0; break;
  case Q_RECV: if(st) st->MPI_SOURCE=r->r->from->src,st->MPI_TAG=r->r->from->tag,st->count=(int)r->r->got; r->r->used=0; break;
  case Q_COLL: ar_result(r->c,r->out); cfree(r->c); break; }
  r->kind=Q_FREE; reap(); }
int MPI_Wait(MPI_Request*q,MPI_Status*st)
{ int i; if(*q==MPI_REQUEST_NULL) return 0; i=(int)(Q(*q)-rq); while(!rq_try(&rq[i])) block("MPI_Wait"); rq_fin(&rq[i],st); *q=MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n,MPI_Request*q,MPI_Status*st)
{ int i, start, order_;
  if(n<0) mpi_fail("MPI_Waitall with a negative count %d",n);
  for(i=0;i<n;++i) if(q[i]!=MPI_REQUEST_NULL) Q(q[i]);
  /* complete in a random order */
  for(;;) { int pending=0;
    start=n?(int)rng_n(&srng,n):0; order_=1;
    for(i=0;i<n;++i) { int j=(start+i*order_)%n; int ix; if(q[j]==MPI_REQUEST_NULL) continue; ix=(int)(Q(q[j])-rq);
      if(rq_try(&rq[ix])) { rq_fin(&rq[ix],st?&st[j]:0); q[j]=MPI_REQUEST_NULL; } else ++pending; }
    if(!pending) break; block("MPI_Waitall"); }
  return 0; }
int MPI_Waitany(int n,MPI_Request*q,int*idx,MPI_Status*st)
{ int i,any; for(;;) { any=0; for(i=0;i<n;++i) if(q[i]!=MPI_REQUEST_NULL) { int ix=(int)(Q(q[i])-rq); any=1;
    if(rq_try(&rq[ix])) { rq_fin(&rq[ix],st); q[i]=MPI_REQUEST_NULL; *idx=i; return 0; } }
    if(!any) { *idx=-1; return 0; } block("MPI_Waitany"); } }
int MPI_Test(MPI_Request*q,int*f,MPI_Status*st)
{ int ix; if(*q==MPI_REQUEST_NULL) { *f=1; return 0; } ix=(int)(Q(*q)-rq); if(rq_try(&rq[ix])) { rq_fin(&rq[ix],st); *q=MPI_REQUEST_NULL; *f=1; }
  else { *f=0; ++progress; rk[me].state=R_READY; to_sched(); } return 0; }
int MPI_Testall(int n,MPI_Request*q,int*f,MPI_Status*st)
{ int i; *f=1; for(i=0;i<n;++i) if(q[i]!=MPI_REQUEST_NULL&&!rq_try(Q(q[i]))) *f=0;
  if(*f) return MPI_Waitall(n,q,st); ++progress; rk[me].state=R_READY; to_sched(); return 0; }
int MPI_Sendrecv(const void*s,int sn,MPI_Datatype stt,int d,int stag,void*r,int rn,MPI_Datatype rt,int src,int rtag,MPI_Comm c,MPI_Status*st)
{ MPI_Request q[2]; MPI_Irecv(r,rn,rt,src,rtag,c,&q[0]); MPI_Isend(s,sn,stt,d,stag,c,&q[1]); MPI_Waitall(2,q,0); return 0; }
int MPI_Get_count(const MPI_Status*st,MPI_Datatype t,int*n) { *n=(int)(st->count/tsize(t)); return 0; }
int MPI_Abort(MPI_Comm c,int s) { sim_exit(s); }
double MPI_Wtime(void) { static double t=0; return t+=1e-3*(1+(rng_next(&srng)&1023)); }

static int hb_gen, hb_n;
void sim_barrier(void) { int g=hb_gen; if(++hb_n==np) { hb_n=0; ++hb_gen; ++progress; } else while(hb_gen==g) block("sim_barrier"); }
static void quiet(const char *when)
{ int i; for(i=0;i<nms;++i) if(!ms[i]->delivered) mpi_fail("%s: message from rank %d to %d (tag %d, %zu bytes) was never received",when,ms[i]->src,ms[i]->dst,ms[i]->tag,ms[i]->len);
  for(i=0;i<nrs;++i) if(rs[i]->used) mpi_fail("%s: a receive posted by rank %d from %d (tag %d) was never completed",when,rs[i]->dst,rs[i]->src,rs[i]->tag);
  for(i=0;i<nrq;++i) if(rq[i].kind!=Q_FREE) mpi_fail("%s: rank %d left a request incomplete",when,rq[i].owner);
  if(colls) mpi_fail("%s: a collective operation was not entered by every rank",when); }
void sim_checkpoint(void) { sim_barrier(); quiet("at a checkpoint"); sim_barrier(); }

/* what the run explored: one hash per non-trivial case, of the number of ranks and the case's own description */
static uint64_t *hs; static size_t hs_n, hs_max; static long hs_triv; static FILE *smp; static int smp_n; static int maxranks;
static int digit_run(const char *key) { const char *s=notes; size_t l=strlen(key);
  while((s=strstr(s,key))) { if((s==notes||s[-1]==' ')&&(s[l]=='0'||s[l]=='1')&&(s[l+1]==' '||!s[l+1])) return 1; s+=l; } return 0; }
static void account(long msgs)
{
  uint64_t h=1469598103934665603ull; size_t k; int trivial;
  if(maxranks>1) trivial=np<2||msgs==0; else trivial=!notes_n||digit_run("n=");
  if(trivial) { ++hs_triv; return; }
  h^=np; h*=1099511628211ull; for(k=0;k<notes_n;++k) h^=(unsigned char)notes[k],h*=1099511628211ull;
  if(hs_n==hs_max) { hs_max=hs_max?2*hs_max:4096; hs=realloc(hs,hs_max*sizeof *hs); }
  hs[hs_n++]=h;
  if(smp&&smp_n<2&&notes_n) { ++smp_n; for(k=0;k<notes_n;++k) if(notes[k]=='\n') notes[k]=' '; fprintf(smp,"seed %llu, %d process%s: %.900s\n",(unsigned long long)cur.seed,np,np==1?"":"es",notes); }
}

static void run_case(void)
{
  int i, live; struct itimerval tv={{0,0},{60,0}};
  me=-1; notes_n=0; notes[0]=0; hb_n=0; memset(board,0,sizeof board);
  for(i=0;i<nms;++i) { free(ms[i]->copy); free(ms[i]); } nms=0; for(i=0;i<nrs;++i) free(rs[i]); nrs=0; nrq=0; 
  srng.s=cur.seed^0x5151; sendmode=(int)rng_n(&srng,3);
  np=rk[0].hnp(cur.seed,cur.tier,cur.mode,MAXNP<np?MAXNP:np);
  ncm=0,ctxs=0; { int w=new_comm(); cm[w].n=np; for(i=0;i<np;++i) cm[w].ranks[i]=i; }
  cur.np=np;
  for(i=0;i<np;++i) {
    if(!rk[i].stack) rk[i].stack=mmap(0,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
#ifdef ASAN
    __asan_unpoison_memory_region(rk[i].stack,STACK);
#endif
    getcontext(&rk[i].ctx); rk[i].ctx.uc_stack.ss_sp=rk[i].stack; rk[i].ctx.uc_stack.ss_size=STACK; rk[i].ctx.uc_link=0;
    rk[i].state=R_READY; rk[i].exit_jmp=0; rk[i].fake=0;
    makecontext(&rk[i].ctx,(void(*)(void))entry,1,i);
  }
  setitimer(ITIMER_REAL,&tv,0);
  for(;;) {
    int cand[MAXNP], n=0; live=0;
    for(i=0;i<np;++i) { if(rk[i].state!=R_DONE) ++live; if(rk[i].state==R_READY||(rk[i].state==R_BLOCKED&&rk[i].seen!=progress)) cand[n++]=i; }
    if(!live) break;
    if(!n) { char b[1024]; int l=0; for(i=0;i<np;++i) if(rk[i].state!=R_DONE&&l<900) l+=snprintf(b+l,sizeof b-l," %d:%s",i,rk[i].where); me=-1; mpi_fail("deadlock: ranks blocked in%s",b); }
    i=cand[rng_n(&srng,n)];
    rk[i].state=R_READY;
#ifdef ASAN
    __sanitizer_start_switch_fiber(&sched_fake,rk[i].stack,STACK);
#endif
    me=i;
    swapcontext(&sched_ctx,&rk[i].ctx);
#ifdef ASAN
    __sanitizer_finish_switch_fiber(sched_fake,0,0);
#endif
    me=-1;
  }
  quiet("at the end");
  tv.it_value.tv_sec=0; setitimer(ITIMER_REAL,&tv,0);
}

static uint64_t mix(uint64_t a, uint64_t b) { struct rng r={a*0x9e3779b97f4a7c15ull+b}; rng_next(&r); return rng_next(&r)^b; }

int main(int argc, char **argv)
{
  const char *so=0, *hpath=0; int maxnp=9,i; long first=0,stride=1,count=1000; double tlim=30; uint64_t seed=1,exact=0; int have=0; char path[4096], cmd[8192];
  long ran=0; struct timespec t0,t1;
  for(i=1;i<argc;++i) {
    if(!strcmp(argv[i],"--so")) so=argv[++i]; else if(!strcmp(argv[i],"--seed")) seed=strtoull(argv[++i],0,0);
    else if(!strcmp(argv[i],"--first")) first=atol(argv[++i]); else if(!strcmp(argv[i],"--stride")) stride=atol(argv[++i]);
    else if(!strcmp(argv[i],"--count")) count=atol(argv[++i]); else if(!strcmp(argv[i],"--time")) tlim=atof(argv[++i]);
    else if(!strcmp(argv[i],"--np")) maxnp=atoi(argv[++i]); else if(!strcmp(argv[i],"--mode")) cur.mode=atoi(argv[++i]);
    else if(!strcmp(argv[i],"--tier")) cur.tier=atoi(argv[++i]); else if(!strcmp(argv[i],"--case-seed")) exact=strtoull(argv[++i],0,0),have=1;
    else if(!strcmp(argv[i],"--hashes")) hpath=argv[++i];
    else { fprintf(stderr,"bad argument %s\n",argv[i]); return 2; } }
  maxranks=maxnp; if(hpath) { snprintf(path,sizeof path,"%s.txt",hpath); smp=fopen(path,"w"); }
  { int fd=dup(1), nul=open("/dev/null",O_WRONLY); res=fdopen(fd,"w"); dup2(nul,1); }
  for(i=0;i<maxnp;++i) { /* one private copy of the library and harness per rank */
    snprintf(path,sizeof path,"%s.r%d",so,i);
    rk[i].so=dlopen(path,RTLD_NOW|RTLD_LOCAL);
    if(!rk[i].so) { fprintf(stderr,"dlopen: %s\n",dlerror()); return 2; }
    rk[i].hcase=(void(*)(struct simcase*))dlsym(rk[i].so,"harness_case");
    rk[i].hnp=(int(*)(uint64_t,int,int,int))dlsym(rk[i].so,"harness_np");
    if(!rk[i].hcase||!rk[i].hnp) { fprintf(stderr,"harness symbols missing\n"); return 2; } }
  (void)cmd;
  signal(SIGALRM,on_alarm);
#ifdef ASAN
  __sanitizer_set_death_callback(on_death);
#else
  signal(SIGSEGV,on_crash); signal(SIGBUS,on_crash);
#endif
  signal(SIGABRT,on_crash); signal(SIGFPE,on_crash); signal(SIGILL,on_crash); signal(SIGTRAP,on_crash);
  clock_gettime(CLOCK_MONOTONIC,&t0);
  for(i=0;i<count;++i) {
    cur.index=first+i*stride; cur.seed=have?exact:mix(seed,(uint64_t)cur.index+1); np=maxnp;
    { long m0=n_msgs; run_case(); account(n_msgs-m0); } ++ran;
    clock_gettime(CLOCK_MONOTONIC,&t1);
    if(have||(t1.tv_sec-t0.tv_sec)+1e-9*(t1.tv_nsec-t0.tv_nsec)>tlim) break;
  }
  if(hpath) { FILE *f=fopen(hpath,"wb"); if(f) { fwrite(hs,sizeof *hs,hs_n,f); fclose(f); } if(smp) fclose(smp); }
  fprintf(res,"DONE trivial=%ld cases=%ld messages=%ld",hs_triv,ran,n_msgs);
  for(i=0;i<ncnt;++i) fprintf(res," %s=%ld",cnt[i].k,cnt[i].n);
  fprintf(res,"\n"); fflush(res); _exit(0);
}
