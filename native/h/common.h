#ifndef H_COMMON_H
#define H_COMMON_H
#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <float.h>
#include <math.h>
#include "c99.h"
#include "name.h"
#include "fail.h"
#include "types.h"
#include "mem.h"
#include "gs_defs.h"
#include "comm.h"
#include "gs.h"
#include "crystal.h"
#include "sort.h"
#include "sarray_sort.h"
#include "sarray_transfer.h"
#include "tensor.h"
#include "../sim.h"
/* exact-size heap array, so that the sanitizer sees any access outside it */
static inline void *xa(size_t n) { void *p=malloc(n?n:1); return p; }
#define XA(T,n) ((T*)xa((size_t)(n)*sizeof(T)))
#define CHECK(cond,...) do { if(!(cond)) sim_fail(__VA_ARGS__); } while(0)
#endif
