/* Interface between the simulator (main program) and a harness (shared object,
   one copy per rank so that every rank has its own static data). */
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <stdint.h>
#include <stddef.h>
struct simcase {
  uint64_t seed;     /* seed of this case: all ranks derive the same global input from it */
  int np;            /* number of ranks */
  int rank;          /* this rank */
  int tier;          /* 0 quick, 1 thorough */
  long index;        /* case index */
  int mode;          /* harness-specific selector */
};
/* provided by the simulator */
void sim_fail(const char *fmt, ...) __attribute__((format(printf,1,2),noreturn));
void sim_note(const char *fmt, ...) __attribute__((format(printf,1,2)));   /* describes the case, printed on failure */
void sim_count(const char *key, long n);                                    /* coverage counters */
/* runs f; returns 0 if it returned, 1 if the code under test called exit()/MPI_Abort */
int sim_expect_exit(void (*f)(void*), void *arg);
void sim_exit(int status) __attribute__((noreturn));
/* global (shared by all ranks) board of pointers, for oracles that look at other ranks' results */
void **sim_board(void);
void sim_barrier(void);   /* harness-level barrier, not part of the program under test */
void sim_checkpoint(void);/* all ranks: assert that no message is in flight */

/* provided by the harness */
int  harness_np(uint64_t seed, int tier, int mode, int maxnp);
void harness_case(struct simcase *c);

/* deterministic rng */
struct rng { uint64_t s; };
static inline uint64_t rng_next(struct rng *r)
{ uint64_t z=(r->s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull;
  z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static inline uint64_t rng_n(struct rng *r, uint64_t n) { return n? rng_next(r)%n : 0; }
static inline int rng_i(struct rng *r, int lo, int hi) { return lo+(int)rng_n(r,(uint64_t)(hi-lo+1)); }
static inline double rng_d(struct rng *r) { return (double)(rng_next(r)>>11)*(1.0/9007199254740992.0); }
#endif
