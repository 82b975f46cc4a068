From 2f1a53de13848c83f5f956e6d960a8a56b1f7c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 01/13] fix: keep unflagged entries first when making a
 topology unique

---
 src/gs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index e3a7b70..e1a12ff 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -275,7 +275,8 @@ static void make_topology_unique(struct gs_topology *top, slong *id,
     for(p=nz->ptr,e=p+nz->n;p!=e;++p)
       if(p->i != p->primary) p->flag=1;
   }
-  sarray_sort(struct nonzero_id,nz->ptr,nz->n, primary,0, buf);
+  /* keep the order "primary, then flag, then index" expected by local_map */
+  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, primary,0, flag,0, buf);
 
   /* assign owner among shared primaries */
 
-- 
2.43.0


From 82af0d85bc7d4c8be435f989a0a8eb17bc62a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 02/13] fix: set the non-blocking executors of the crystal
 router method

---
 src/gs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index e1a12ff..3c38f9c 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -939,6 +939,10 @@ static void cr_setup(struct gs_remote *r, struct gs_topology *top,
   r->buffer_size = crd->buffer_size;
   r->data = crd;
   r->exec = (exec_fun*)&cr_exec;
+  /* no overlap: the exchange is completed when it is started */
+  r->exec_irecv = NULL;
+  r->exec_isend = (exec_fun*)&cr_exec;
+  r->exec_wait = NULL;
   r->fin = (fin_fun*)&cr_free;
 }
 
-- 
2.43.0


From ab0770a75489f8a2097f2f0e0e32e58b65ef5bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 03/13] fix: leave a valid request and result when a
 non-blocking all-reduce completes at once

---
 src/comm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/comm.c b/src/comm.c
index 19507c0..3ec0aef 100644
--- a/src/comm.c
+++ b/src/comm.c
@@ -143,6 +143,9 @@ comm_allreduce_byhand:
 void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op,
                           void *v, uint vn, void *buf)
 {
+#ifdef GSLIB_USE_MPI
+  *req = MPI_REQUEST_NULL;
+#endif
   if(vn==0) return;
 #ifdef GSLIB_USE_MPI
   {
@@ -177,6 +180,7 @@ void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op
 #ifdef GSLIB_USE_MPI
 comm_allreduce_byhand:
   allreduce_imp(com,dom,op, v,vn, buf);
+  memcpy(buf,v,vn*gs_dom_size[dom]); /* result in buf, as with MPI */
 #endif
 }
 
-- 
2.43.0


From d871530438d95f00fabc6e92d071b67533cf2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 04/13] fix: keep a copy of the pointer list of a non-blocking
 gs_many

---
 src/gs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 3c38f9c..c4aaa92 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1304,6 +1304,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    if(nblkng_dict[handle]->mode==mode_many) free(nblkng_dict[handle]->u);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
     nblkng_count--;
@@ -1365,7 +1366,8 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
 
   nblkng_dict[nblkng_n] = tmalloc(struct nonblocking_private, 1);
 
-  nblkng_dict[nblkng_n]->u = (void *)u;
+  /* the caller's list of pointers may be gone by the time of gs_wait */
+  nblkng_dict[nblkng_n]->u = memcpy(tmalloc(void*,vn),u,vn*sizeof(void*));
   nblkng_dict[nblkng_n]->dom = dom;
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
-- 
2.43.0


From 2d3b26720dc43c04c150fad3030be7e83e68db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 05/13] fix: give a non-blocking operation without a caller
 buffer its own buffer

---
 src/gs.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index c4aaa92..e5d6c8b 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1252,7 +1252,7 @@ struct nonblocking_private {
   gs_op op;
   unsigned transpose;
   struct gs_data *gsh;
-  buffer *buf;
+  buffer *buf, own; /* own: used when the caller gives no buffer */
   unsigned vn;
 };
 
@@ -1282,6 +1282,8 @@ void igs(void *u, gs_dom dom, gs_op op, unsigned transpose,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->mode = mode_plain;
   nblkng_dict[nblkng_n]->vn = 1;
@@ -1305,6 +1307,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
     if(nblkng_dict[handle]->mode==mode_many) free(nblkng_dict[handle]->u);
+    buffer_free(&nblkng_dict[handle]->own);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
     nblkng_count--;
@@ -1339,6 +1342,8 @@ void igs_vec(void *u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->mode = mode_vec;
@@ -1372,6 +1377,8 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->mode = mode_many;
-- 
2.43.0


From 820be43047c4f8f236a5d7b4cffd511ae868a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 06/13] fix: drop, not add, the rows beyond the capacity in a
 fixed-size transfer

---
 src/sarray_transfer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 5f94192..771982a 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -125,7 +125,7 @@ static uint cap_rows(buffer *const data, const unsigned row_size,const uint max)
     uint len=buf[2]; n+=len;
     if(n<maxn) buf+=len+3;
     else {
-      buf[2]-=(maxn-n); data->n = (buf-(uint*)data->ptr)+3+buf[2];
+      buf[2]-=(n-maxn); data->n = (buf-(uint*)data->ptr)+3+buf[2];
       buf+=len+3;
       while(buf!=buf_end) { uint len=buf[2]; n+=len, buf+=len+3; }
       break;
-- 
2.43.0


From 304c770c5830fe09b8be3503a9544d8526416180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 07/13] fix: transfer records that consist of the processor
 field only

---
 src/sarray_transfer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 771982a..48708e8 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -148,6 +148,7 @@ uint sarray_transfer_many(
   if(!ext) off1 -= sizeof(uint);
   row_size=off1; for(i=1;i<An;++i) row_size += size[i];
   row_size = (row_size+sizeof(uint)-1)/sizeof(uint);
+  if(row_size==0) row_size=1; /* the proc field only: rows must still be counted */
   
   perm = sortp(&cr->work,0, proc,A[0]->n,proc_stride);
 
-- 
2.43.0


From fcd477bf38ec1fef86a034deea785c83ee175257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 08/13] fix: use the size of the field's datatype as the stride
 unit in gs_op_fields

---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index e5d6c8b..d7cb462 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1654,7 +1654,7 @@ void fgs_fields(const sint *handle,
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-  offset = *stride * gs_dom_size[*dom-1];
+  offset = *stride * gs_dom_size[fgs_dom[*dom]];
   for(i=*n;i;--i) *p++ = u, u = (char*)u + offset;
 
   cgs_many((void *const*)fgs_fields_array.ptr,*n,
-- 
2.43.0


From e6258c8e78a543131d78d0bb5589a77e6f2035ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 09/13] fix: do not accept a vertex as the closest point while
 the distance still decreases into the element

---
 src/findpts_el_2.c | 5 ++++-
 src/findpts_el_3.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index aad9aad..ae03882 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -485,7 +485,10 @@ newton_area_fin:
   }
 #endif
   flags &= mask;
-  if(fabs(dr[0])+fabs(dr[1]) < tol) flags |= CONVERGED_FLAG;
+  /* at a vertex, findpt_pt decides: the step may be zero only because
+     constraints with dr[d]==0 are never relaxed above */
+  if(num_constrained(flags)<2 && fabs(dr[0])+fabs(dr[1]) < tol)
+    flags |= CONVERGED_FLAG;
   {
     const double res0 = resid[0]-(jac[0]*dr[0]+jac[1]*dr[1]),
                  res1 = resid[1]-(jac[2]*dr[0]+jac[3]*dr[1]);
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index 62561ff..4982485 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -725,7 +725,10 @@ newton_vol_fin:
   }
 #endif
   flags &= mask;
-  if(fabs(dr[0])+fabs(dr[1])+fabs(dr[2]) < tol) flags |= CONVERGED_FLAG;
+  /* at a vertex, findpt_pt decides: the step may be zero only because
+     constraints with dr[d]==0 are never relaxed above */
+  if(num_constrained(flags)<3 && fabs(dr[0])+fabs(dr[1])+fabs(dr[2]) < tol)
+    flags |= CONVERGED_FLAG;
   {
     const double res0 = resid[0]-(jac[0]*dr[0]+jac[1]*dr[1]+jac[2]*dr[2]),
                  res1 = resid[1]-(jac[3]*dr[0]+jac[4]*dr[1]+jac[5]*dr[2]),
-- 
2.43.0


From e1e939d66eb5cbeedf71a6137a6c0855c50acc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 10/13] fix: keep the full width of the global hash cell number
 when routing points

---
 src/findpts_imp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 8c08479..46cc548 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -316,7 +316,7 @@ void findptsms(        uint   *const        code_base, const unsigned       code
       *proc = id;
       if ((*code!=CODE_INTERNAL && fd->local.ims==0) ||
            fd->local.ims==1) {
-        const uint hi = hash_index(&fd->hash,x);
+        const ulong hi = hash_index(&fd->hash,x);
         unsigned d;
         for(d=0;d<D;++d) pt->x[d]=x[d];
         pt->index=index;
-- 
2.43.0


From 5c465e2aa770cf9dd8420bd95f872b8695d040c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 11/13] fix: flag the constraints of a point accepted when its
 negligible last step is rejected

---
 src/findpts_el_2.c | 10 +++++++++-
 src/findpts_el_3.c | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index ae03882..a86582a 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -334,7 +334,15 @@ static int reject_prior_step_q(struct findpts_el_pt_2 *const out,
     out->r[0]=p->oldr[0],out->r[1]=p->oldr[1];
     out->flags=p->flags>>5;
     out->dist2p=-DBL_MAX;
-    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG;
+    if(pred < dist2*tol) {
+      /* the rejected step was negligible: the point we go back to is subject
+         to the same constraints, and might not have been flagged itself
+         (the seed is not, even when it is on the boundary) */
+      unsigned d;
+      for(d=0;d<2;++d)
+        if(p->r[d]==p->oldr[d]) out->flags |= p->flags & (3u<<(2*d));
+      out->flags|=CONVERGED_FLAG;
+    }
     return 1;
   }
 }
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index 4982485..482c6f8 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -524,7 +524,15 @@ static int reject_prior_step_q(struct findpts_el_pt_3 *const out,
     out->r[0]=p->oldr[0],out->r[1]=p->oldr[1],out->r[2]=p->oldr[2];
     out->flags=p->flags>>7;
     out->dist2p=-DBL_MAX;
-    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG;
+    if(pred < dist2*tol) {
+      /* the rejected step was negligible: the point we go back to is subject
+         to the same constraints, and might not have been flagged itself
+         (the seed is not, even when it is on the boundary) */
+      unsigned d;
+      for(d=0;d<3;++d)
+        if(p->r[d]==p->oldr[d]) out->flags |= p->flags & (3u<<(2*d));
+      out->flags|=CONVERGED_FLAG;
+    }
     return 1;
   }
 }
-- 
2.43.0


From 86cf7f21ddfbe40af17f5b29b105d8f6a8cf588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:57 +0000
Subject: [PATCH 12/13] fix: compute the distance between fields in
 gs_op_fields without wrapping

---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index d7cb462..673f911 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1654,7 +1654,7 @@ void fgs_fields(const sint *handle,
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-  offset = *stride * gs_dom_size[fgs_dom[*dom]];
+  offset = (size_t)*stride * gs_dom_size[fgs_dom[*dom]];
   for(i=*n;i;--i) *p++ = u, u = (char*)u + offset;
 
   cgs_many((void *const*)fgs_fields_array.ptr,*n,
-- 
2.43.0


From 0a503bb5c3bb84aed89d4d5d9afdd6c1e068380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:57 +0000
Subject: [PATCH 13/13] fix: compute byte offsets of strided findpts arguments
 and element data without wrapping

---
 src/findpts_imp.h       |  4 ++--
 src/findpts_local_imp.h | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 46cc548..765772b 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -402,7 +402,7 @@ void findptsms(        uint   *const        code_base, const unsigned       code
   }
   /* merge remote results with user data */
   {
-    #define  AT(T,var,i) (T*)((char*)var##_base+(i)*var##_stride)
+    #define  AT(T,var,i) (T*)((char*)var##_base+(size_t)(i)*var##_stride)
     uint n=out_pt.n;
     struct out_pt *opt;
     if (fd->local.ims==1) {
@@ -617,7 +617,7 @@ void findptsms_eval(
   }
   /* copy results to user data */
   {
-    #define  AT(T,var,i) (T*)((char*)var##_base+(i)*var##_stride)
+    #define  AT(T,var,i) (T*)((char*)var##_base+(size_t)(i)*var##_stride)
     uint n=outpt.n;
     struct eval_out_pt *opt;
     for(opt=outpt.ptr;n;--n,++opt) *AT(double,out,opt->index)=opt->out;
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 25cf8b0..9757c04 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -247,11 +247,11 @@ void findptsms_local_free(struct findpts_local_data *const fd)
 }
 
 #define   AT(T,var,i)   \
-        (T*)(      (char*)var##_base   +(i)*var##_stride   )
+        (T*)(      (char*)var##_base   +(size_t)(i)*var##_stride   )
 #define  CAT(T,var,i) \
-  (const T*)((const char*)var##_base   +(i)*var##_stride   )
+  (const T*)((const char*)var##_base   +(size_t)(i)*var##_stride   )
 #define CATD(T,var,i,d) \
-  (const T*)((const char*)var##_base[d]+(i)*var##_stride[d])
+  (const T*)((const char*)var##_base[d]+(size_t)(i)*var##_stride[d])
 
 static void map_points_to_els(
   struct array *const               map,
@@ -323,7 +323,7 @@ void findptsms_local(
     const unsigned npt_max = fd->fed.npt_max;
     const struct index_el *p, *const pe = (struct index_el *)map.ptr+map.n;
     for(p=map.ptr;p!=pe;) {
-      const uint el = p->el, el_off=el*fd->ntot;
+      const uint el = p->el; const size_t el_off=(size_t)el*fd->ntot;
       const double *elx[D];
       unsigned d;
       for(d=0;d<D;++d) elx[d]=fd->elx[d]+el_off;
@@ -342,7 +342,7 @@ void findptsms_local(
         if (fd->ims==1) {
            findpts_el_eval(fd->distrsti, sizeof(double),
                              &fpt[0].r[0], sizeof(struct findpts_el_pt), i,
-                             fd->distfint+el*fd->ntot  ,fed);
+                             fd->distfint+el_off       ,fed);
          }
 
         for(i=0,q=p;i<npt_max && q->el==el;++q) {
@@ -387,7 +387,7 @@ void findptsms_local_eval(
   uint p;
   for(p=0;p<npt;) {
     const uint el = *CAT(uint,el,p);
-    const double *const in_el = in+el*fd->ntot;
+    const double *const in_el = in+(size_t)el*fd->ntot;
     do {
       unsigned i; uint q;
       for(i=0,q=p;i<npt_max && q<npt && *CAT(uint,el,q)==el;++q) ++i;
-- 
2.43.0

