From 5cb53e29fc3980c2cfc9f053aae1dc7d05115b1e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 01/22] fix: describe strided transfers with nested vectors

ARMCI_STRIDED_METHOD=DIRECT built a subarray whose dimensions were the
quotients of neighbouring strides: strides that are not multiples of one
another addressed the wrong bytes, and a block count larger than the
quotient made an invalid subarray.
---
 src/strided.c | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 2f25954..9c94dd9 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -12,7 +12,7 @@
 #include <debug.h>
 
 
-/** Convert an ARMCI strided access description into an MPI subarray datatype.
+/** Convert an ARMCI strided access description into an MPI datatype.
   *
   * @param[in]  stride_array    Array of strides
   * @param[in]  count           Array of transfer counts
@@ -23,9 +23,6 @@
 void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*stride_levels+1*/],
                              int stride_levels, MPI_Datatype old_type, MPI_Datatype *new_type)
 {
-  int sizes   [stride_levels+1];
-  int subsizes[stride_levels+1];
-  int starts  [stride_levels+1];
   int i, old_type_size;
 
   MPI_Type_size(old_type, &old_type_size);
@@ -34,14 +31,10 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
   for (i = stride_levels+1; (i > 0) && (stride_levels > 0) && (count[i-1] == 1); i--)
     stride_levels--;
 
-  /* A correct strided spec should me monotonic increasing and stride_array[i+1] should
-     be a multiple of stride_array[i]. */
+  /* A correct strided spec should be monotonic increasing. */
   if (stride_levels > 0) {
     for (i = 1; i < stride_levels; i++) {
       ARMCII_Assert(stride_array[i] >= stride_array[i-1]);
-      /* This assertion is violated by what seems to be valid usage resulting from
-       * the new GA API call nga_strided_get during the stride test in GA 5.2.
-       * ARMCII_Assert((stride_array[i] % stride_array[i-1]) == 0); */
     }
   }
 
@@ -53,32 +46,22 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
     MPI_Type_contiguous(elem_count, old_type, new_type);
   }
 
-  /* Transfer is non-contiguous */
+  /* Transfer is non-contiguous.  The strides need not be multiples of one another
+   * (e.g. nga_strided_get in the GA 5.2 stride test), so a subarray cannot express
+   * them in general; nested vectors can. */
   else {
-
-    for (i = 0; i < stride_levels+1; i++)
-      starts[i] = 0;
-
-    sizes   [stride_levels] = stride_array[0]/old_type_size;
-    subsizes[stride_levels] = count[0]/old_type_size;
+    MPI_Datatype inner_type;
 
     ARMCII_Assert((stride_array[0] % old_type_size) == 0);
     ARMCII_Assert((count[0] % old_type_size) == 0);
 
-    for (i = 1; i < stride_levels; i++) {
-      /* Convert strides into dimensions by dividing out contributions from lower dims */
-      sizes   [stride_levels-i] = stride_array[i]/stride_array[i-1];
-      subsizes[stride_levels-i] = count[i];
+    MPI_Type_contiguous(count[0]/old_type_size, old_type, new_type);
 
-      /* This assertion is violated by what seems to be valid usage resulting from
-       * the new GA API call nga_strided_get during the stride test in GA 5.2.  
-       * ARMCII_Assert_msg((stride_array[i] % stride_array[i-1]) == 0, "Invalid striding"); */
+    for (i = 0; i < stride_levels; i++) {
+      inner_type = *new_type;
+      MPI_Type_create_hvector(count[i+1], 1, stride_array[i], inner_type, new_type);
+      MPI_Type_free(&inner_type);
     }
-
-    sizes   [0] = count[stride_levels];
-    subsizes[0] = count[stride_levels];
-
-    MPI_Type_create_subarray(stride_levels+1, sizes, subsizes, starts, MPI_ORDER_C, old_type, new_type);
   }
 }
 
-- 
2.43.0


From e8201b6ba0cb7334aee614b42405d0a59ffe2567 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 02/22] fix: look up the allocation of every segment of a
 conservative vector operation

With ARMCI_IOV_CHECKS (or the CONSRV method) segments in different
allocations are issued one by one, but all of them against the first
segment's window: the range check then aborted the job.
---
 src/vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 850633a..180d1e5 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -263,6 +263,12 @@ int ARMCII_Iov_op_batched(enum ARMCII_Op_e op, void **src, void **dst, int count
       gmr_flush(mreg, proc, flush_local);
     }
 
+    /* The remote buffers may be in different allocations */
+    if (consrv && i > 0) {
+      mreg = gmr_lookup(op == ARMCII_OP_GET ? src[i] : dst[i], proc);
+      ARMCII_Assert_msg(mreg != NULL, "Invalid remote pointer");
+    }
+
     switch(op) {
       case ARMCII_OP_PUT:
         gmr_put(mreg, src[i], dst[i], elem_count, proc, handle);
-- 
2.43.0


From b000803fda983f476c3fa963ab494e2f0de72f4a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 03/22] fix: complete scaled nonblocking vector accumulates
 before freeing the scaled copy

PARMCI_NbAccV (and NbAccS through it) issued the operations without
completing them and then released the scaled source buffers MPI was still
allowed to read.
---
 src/vector_nb.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vector_nb.c b/src/vector_nb.c
index ed41c6c..55d00c9 100644
--- a/src/vector_nb.c
+++ b/src/vector_nb.c
@@ -126,7 +126,10 @@ int PARMCI_NbAccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int
 {
   int blocking = 0;
 
-  if (ARMCII_GLOBAL_STATE.shr_buf_method != ARMCII_SHR_BUF_NOGUARD) {
+  /* Temporary source buffers, whether guards or scaled copies, are released
+   * before we return, so the operations must have completed locally by then. */
+  if (ARMCII_GLOBAL_STATE.shr_buf_method != ARMCII_SHR_BUF_NOGUARD ||
+      ARMCII_Buf_acc_is_scaled(datatype, scale)) {
       blocking = 1;
   }
 
-- 
2.43.0


From a4708d50d57dc82727c5b533606f38a3ef9f947a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 04/22] fix: fence and wait for a process skip allocations it
 is not part of

---
 src/onesided_nb.c | 4 +++-
 src/util.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index fb3da2b..b129e51 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -392,7 +392,9 @@ int PARMCI_WaitProc(int proc)
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
-    gmr_flush(cur_mreg, proc, 1); /* local only */
+    /* proc is not a target of allocations on groups it does not belong to */
+    if (ARMCII_Translate_absolute_to_group(&cur_mreg->group, proc) >= 0)
+      gmr_flush(cur_mreg, proc, 1); /* local only */
     cur_mreg = cur_mreg->next;
   }
   return 0;
diff --git a/src/util.c b/src/util.c
index 2229c77..5e4217c 100644
--- a/src/util.c
+++ b/src/util.c
@@ -61,7 +61,9 @@ void PARMCI_Fence(int proc) {
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
-    gmr_flush(cur_mreg, proc, 0);
+    /* proc is not a target of allocations on groups it does not belong to */
+    if (ARMCII_Translate_absolute_to_group(&cur_mreg->group, proc) >= 0)
+      gmr_flush(cur_mreg, proc, 0);
     cur_mreg = cur_mreg->next;
   }
   return;
-- 
2.43.0


From 46abb33ef85d43096b04b6f19fa60b6b220cedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 05/22] fix: PutS_flag returns zero on success

---
 src/strided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strided.c b/src/strided.c
index 9c94dd9..1ea12e9 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -644,7 +644,7 @@ int PARMCI_PutS_flag(void *src_ptr, int src_stride_ar[/*stride_levels*/],
   PARMCI_Fence(proc);
   PARMCI_Put(&value, flag, sizeof(int), proc);
 
-  return 1;
+  return 0;
 }
 
 
-- 
2.43.0


From 8e4eeaf5f069acfbab0dd2af50c30c3db3c5c43f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:45:20 +0000
Subject: [PATCH 06/22] fix: treat an accumulate scale as the identity only
 when it is exactly one

---
 src/buffer.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/buffer.c b/src/buffer.c
index 28c15f8..8465be1 100644
--- a/src/buffer.c
+++ b/src/buffer.c
@@ -277,24 +277,22 @@ int ARMCII_Buf_acc_is_scaled(int datatype, void *scale) {
       break;
 
     case ARMCI_ACC_FLT:
-      if (fabsf(*((float*)scale)-1.0f) < FLT_EPSILON)
+      if (*((float*)scale) == 1.0f)
         return 0;
       break;
 
     case ARMCI_ACC_DBL:
-      if (fabs(*((double*)scale)-1.0) < DBL_EPSILON)
+      if (*((double*)scale) == 1.0)
         return 0;
       break;
 
     case ARMCI_ACC_CPL:
-      if (fabsf(((float*)scale)[0]-1.0f) < FLT_EPSILON && 
-          fabsf(((float*)scale)[1]-0.0f) < FLT_EPSILON)
+      if (((float*)scale)[0] == 1.0f && ((float*)scale)[1] == 0.0f)
         return 0;
       break;
 
     case ARMCI_ACC_DCP:
-      if (fabs(((double*)scale)[0]-1.0) < DBL_EPSILON &&
-          fabs(((double*)scale)[1]-0.0) < DBL_EPSILON)
+      if (((double*)scale)[0] == 1.0 && ((double*)scale)[1] == 0.0)
         return 0;
       break;
 
-- 
2.43.0


From ef76a86fda36424ae903db69e1c3738771b38f2a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 07/22] fix: testing a handle with nothing outstanding reports
 completion

---
 src/onesided_nb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index b129e51..da9e641 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -328,7 +328,8 @@ int PARMCI_Test(armci_hdl_t* handle)
 
   } else if (handle->batch_size == 0) {
 
-    ARMCII_Warning("ARMCI_Test passed an inactive handle.\n");
+    // nothing is outstanding, so everything has completed
+    flag = 1;
 
   } else if (handle->batch_size == 1) {
 
-- 
2.43.0


From f31c4d48bebcf67a68324016f75925b8f2db9d2b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 08/22] fix: clearing an aggregate handle keeps its outstanding
 operations

---
 src/onesided_nb.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index da9e641..b538b36 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -56,9 +56,7 @@ void ARMCI_UNSET_AGGREGATE_HANDLE(armci_hdl_t *handle)
   ARMCII_Assert_msg(handle, "handle is NULL");
   if (1 || handle != NULL) {
 #ifdef USE_RMA_REQUESTS
-    handle->batch_size     = 0;
-    handle->single_request = MPI_REQUEST_NULL;
-    handle->request_array  = NULL;
+    /* outstanding operations stay attached to the handle until they are waited for */
 #else
     handle->aggregate =  0;
 #endif
-- 
2.43.0


From 19d6cee605a12749538e1517fdbf8448fc35fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 09/22] fix: range-check the whole element of a fetch-and-op

---
 src/gmr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index df96590..63c990b 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -907,6 +907,7 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
 {
   int        grp_proc;
   gmr_size_t disp;
+  MPI_Aint lb, extent;
 
   grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
   ARMCII_Assert(grp_proc >= 0);
@@ -917,7 +918,8 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
 
   // Perform checks
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp <= mreg->slices[proc].size, "Transfer is out of range");
+  MPI_Type_get_true_extent(type, &lb, &extent);
+  ARMCII_Assert_msg(disp + extent <= mreg->slices[proc].size, "Transfer is out of range");
 
   if (ARMCII_GLOBAL_STATE.use_request_atomics) {
 
-- 
2.43.0


From 4cf85e30aa3e9e5dba6716d3c4d965f463c24b41 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 10/22] fix: compute strided displacements beyond 2 GiB without
 overflow

---
 src/strided.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 1ea12e9..7d75a56 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -453,15 +453,15 @@ void ARMCII_Strided_to_iov(armci_giov_t *iov,
       idx[i] = 0;
 
     for (xfer = 0; idx[stride_levels-1] < count[stride_levels]; xfer++) {
-      int disp_src = 0;
-      int disp_dst = 0;
+      ptrdiff_t disp_src = 0;
+      ptrdiff_t disp_dst = 0;
 
       ARMCII_Assert(xfer < iov->ptr_array_len);
 
       // Calculate displacements from base pointers
       for (i = 0; i < stride_levels; i++) {
-        disp_src += src_stride_ar[i]*idx[i];
-        disp_dst += dst_stride_ar[i]*idx[i];
+        disp_src += (ptrdiff_t) src_stride_ar[i]*idx[i];
+        disp_dst += (ptrdiff_t) dst_stride_ar[i]*idx[i];
       }
 
       // Add to the IO Vector
-- 
2.43.0


From 9eab3a6722f68bd9505a256673bf1ed2a6d25eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:41:19 +0000
Subject: [PATCH 11/22] fix: check every byte of a direct vector transfer, for
 windows of any size

---
 src/vector.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 180d1e5..5a6547a 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -307,14 +307,15 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     MPI_Datatype  type_loc, type_rem;
     int           disp_loc[count];
     int           disp_rem[count];
-    int           block_len[count];
     MPI_Aint      loc_addr[count];
     MPI_Aint      base_loc;
     void         *base_loc_ptr;
     void         *dst_win_base;
-    int           dst_win_size, i, type_size;
+    gmr_size_t    dst_win_size;
+    int           i, type_size;
     void        **buf_rem, **buf_loc;
-    MPI_Aint      base_rem;
+    void         *base_rem_ptr;
+    MPI_Aint      win_rem, base_rem;
     int flush_local = 0; /* used only for MPI-3 */
 
     switch(op) {
@@ -340,7 +341,7 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     dst_win_base = mreg->slices[proc].base;
     dst_win_size = mreg->slices[proc].size;
 
-    MPI_Get_address(dst_win_base, &base_rem);
+    MPI_Get_address(dst_win_base, &win_rem);
 
     /* Build both origin and target as element-indexed (indexed_block) types relative to a
      * real base buffer, instead of absolute-address hindexed types used from MPI_BOTTOM:
@@ -361,19 +362,29 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       if (loc_addr[i] < base_loc) { base_loc = loc_addr[i]; base_loc_ptr = buf_loc[i]; }
     }
 
+    /* Likewise for the target: the window may be larger than a 32-bit displacement can span. */
+    base_rem_ptr = buf_rem[0];
+    MPI_Get_address(buf_rem[0], &base_rem);
     for (i = 0; i < count; i++) {
-      MPI_Aint target_rem, off_loc;
+      MPI_Aint target_rem;
+      MPI_Get_address(buf_rem[i], &target_rem);
+      ARMCII_Assert_msg(target_rem >= win_rem && (gmr_size_t)(target_rem - win_rem) < dst_win_size, "Invalid remote pointer");
+      ARMCII_Assert_msg((gmr_size_t)(target_rem - win_rem) + (gmr_size_t)elem_count*type_size <= dst_win_size, "Transfer exceeds buffer length");
+      if (target_rem < base_rem) { base_rem = target_rem; base_rem_ptr = buf_rem[i]; }
+    }
+
+    for (i = 0; i < count; i++) {
+      MPI_Aint target_rem, off_loc, off_rem;
       MPI_Get_address(buf_rem[i], &target_rem);
       off_loc      = (loc_addr[i] - base_loc)/type_size;  /* element offset from base (>= 0) */
-      disp_rem[i]  = (target_rem - base_rem)/type_size;    /* element offset within the window */
-      block_len[i] = elem_count;
+      off_rem      = (target_rem - base_rem)/type_size;   /* element offset from base (>= 0) */
 
       ARMCII_Assert_msg((loc_addr[i] - base_loc) % type_size == 0, "Local transfer offset is not a multiple of type size");
       ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
-      ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
-      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i] <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
+      ARMCII_Assert_msg(off_rem <= INT_MAX, "Remote segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       disp_loc[i]  = (int)off_loc;
+      disp_rem[i]  = (int)off_rem;
     }
 
     /* Optionally chunk the blocks across several ops so the flattened datatype
@@ -392,15 +403,15 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
 
       switch(op) {
         case ARMCII_OP_PUT:
-          gmr_put_typed(mreg, base_loc_ptr, 1, type_loc, MPI_BOTTOM, 1, type_rem, proc, handle);
+          gmr_put_typed(mreg, base_loc_ptr, 1, type_loc, base_rem_ptr, 1, type_rem, proc, handle);
           flush_local = 1;
           break;
         case ARMCII_OP_GET:
-          gmr_get_typed(mreg, MPI_BOTTOM, 1, type_rem, base_loc_ptr, 1, type_loc, proc, handle);
+          gmr_get_typed(mreg, base_rem_ptr, 1, type_rem, base_loc_ptr, 1, type_loc, proc, handle);
           flush_local = 0;
           break;
         case ARMCII_OP_ACC:
-          gmr_accumulate_typed(mreg, base_loc_ptr, 1, type_loc, MPI_BOTTOM, 1, type_rem, proc, handle);
+          gmr_accumulate_typed(mreg, base_loc_ptr, 1, type_loc, base_rem_ptr, 1, type_rem, proc, handle);
           flush_local = 1;
           break;
         default:
-- 
2.43.0


From 3f78b3358418de2c30b4f1b4013146a564075e2f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 12/22] fix: groups without the caller and cached translations
 of non-members

---
 src/groups.c    | 9 +++------
 src/internals.c | 1 -
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/groups.c b/src/groups.c
index fb0b7f5..0b40230 100644
--- a/src/groups.c
+++ b/src/groups.c
@@ -37,6 +37,9 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
   else
     group->noncoll_pgroup_comm = MPI_COMM_NULL;
 
+  group->abs_to_grp = NULL;
+  group->grp_to_abs = NULL;
+
   /* Check if translation caching is enabled */
   if (ARMCII_GLOBAL_STATE.cache_rank_translation) {
     if (group->comm != MPI_COMM_NULL) {
@@ -64,12 +67,6 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
       free(ranks);
     }
   }
-  
-  /* Translation caching is disabled */
-  else {
-    group->abs_to_grp = NULL;
-    group->grp_to_abs = NULL;
-  }
 }
 
 
diff --git a/src/internals.c b/src/internals.c
index f4893f3..0cef4ac 100644
--- a/src/internals.c
+++ b/src/internals.c
@@ -72,7 +72,6 @@ int ARMCII_Translate_absolute_to_group(ARMCI_Group *group, int world_rank) {
   /* Check for translation cache */
   else if (group->grp_to_abs != NULL) {
     group_rank = group->abs_to_grp[world_rank];
-    return group_rank;
   }
   else {
     /* Translate the rank */
-- 
2.43.0


From 8502a969d1d8af1d1865a86be96cfd34098daa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 13/22] fix: apply absmin and absmax to a reduction over the
 calling process alone

---
 src/message_gop.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/message_gop.c b/src/message_gop.c
index dd2f8d1..1168e74 100644
--- a/src/message_gop.c
+++ b/src/message_gop.c
@@ -139,7 +139,7 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
   MPI_Op       mpi_op;
   MPI_Datatype mpi_type;
   MPI_Comm     comm;
-  int          mpi_type_size;
+  int          mpi_type_size, comm_size;
 
   /* FIXME: scope argument presently ignored */
   if (scope == SCOPE_ALL || scope == SCOPE_MASTERS)
@@ -204,7 +204,9 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
 
   // ABS MAX/MIN are unary as well as binary.  We need to also apply abs in the
   // single processor case when reduce would normally just be a no-op.
-  if (group->size == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
+  MPI_Comm_size(comm, &comm_size);
+
+  if (comm_size == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
     ARMCII_Absv_op(x_buf[0], x_buf[0], &n, &mpi_type);
   }
 
-- 
2.43.0


From c1aab9cab1cd4ea7dee5398fb2bf7e26d0f48878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 14/22] fix: keep the result of a select reduction on a
 globally accessible buffer

---
 src/message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index 2bcb5f5..9c504d3 100644
--- a/src/message.c
+++ b/src/message.c
@@ -426,7 +426,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   data_in->type       = type;
 
   if (contribute)
-    ARMCI_Copy(x, data_in->data, n);
+    ARMCI_Copy(x_buf[0], data_in->data, n);
 
   if (strncmp(op, "min", 3) == 0) {
     MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
@@ -436,7 +436,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
-  ARMCI_Copy(data_out->data, x, n);
+  ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
-- 
2.43.0


From 520d595162f072f8aa98e76e44cb3f10e8112f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 15/22] fix: a short message leaves the rest of a globally
 accessible receive buffer alone

---
 src/message.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/message.c b/src/message.c
index 9c504d3..cf6cc11 100644
--- a/src/message.c
+++ b/src/message.c
@@ -202,14 +202,16 @@ void armci_msg_snd(int tag, void *buf_in, int nbytes, int dest) {
   */
 void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int src) {
   void     **buf;
+  int        nbytes_rcvd;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, src, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes_rcvd);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_rcvd);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes_rcvd;
 }
 
 
@@ -223,14 +225,16 @@ void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int
   */
 int armci_msg_rcvany(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg) {
   void     **buf;
+  int        nbytes_rcvd;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, MPI_ANY_SOURCE, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes_rcvd);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_rcvd);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes_rcvd;
 
   return status.MPI_SOURCE;
 }
-- 
2.43.0


From a5b322e8c13d88b12b4826ce8311368830a719f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 16/22] fix: binary tree of a single-process scope sets every
 output

---
 src/message.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index cf6cc11..69787df 100644
--- a/src/message.c
+++ b/src/message.c
@@ -262,7 +262,8 @@ void armci_msg_bintree(int scope, int *root, int *up, int *left, int *right) {
   int me, nproc;
 
   if (scope == SCOPE_NODE) {
-    *root  = 0;
+    *root  = armci_msg_me();
+    *up    = -1;
     *left  = -1;
     *right = -1;
    
-- 
2.43.0


From ed96a12d4e4e81d8dedc4be5b36c751cf6495e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 17/22] fix: a select reduction hands MPI its record as one
 element

---
 src/message.c | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/message.c b/src/message.c
index 69787df..5a4aa96 100644
--- a/src/message.c
+++ b/src/message.c
@@ -305,12 +305,17 @@ MPI_Op ARMCI_MPI_SELMAX_OP;
   */
 void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int         size;
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
+  /* The data type describes a whole record */
+  ARMCII_Assert(*len == 1);
+  MPI_Type_size(*datatype, &size);
+
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, size);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -323,19 +328,19 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -352,12 +357,17 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
   */
 void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int         size;
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
+  /* The data type describes a whole record */
+  ARMCII_Assert(*len == 1);
+  MPI_Type_size(*datatype, &size);
+
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, size);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -370,19 +380,19 @@ void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -406,6 +416,7 @@ void armci_msg_sel(void *x, int n, char *op, int type, int contribute) {
   */
 void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int contribute) {
   MPI_Comm    sel_comm;
+  MPI_Datatype sel_type;
   sel_data_t *data_in, *data_out;
   void      **x_buf;
 
@@ -433,14 +444,20 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   if (contribute)
     ARMCI_Copy(x_buf[0], data_in->data, n);
 
+  /* A record is one element, which MPI never passes to the operator in pieces */
+  MPI_Type_contiguous(sizeof(sel_data_t)+n-1, MPI_BYTE, &sel_type);
+  MPI_Type_commit(&sel_type);
+
   if (strncmp(op, "min", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMIN_OP, sel_comm);
   } else if (strncmp(op, "max", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMAX_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMAX_OP, sel_comm);
   } else {
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
+  MPI_Type_free(&sel_type);
+
   ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
-- 
2.43.0


From edc704c9e1180d9c148c7258e08e753b895b04bc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 18/22] fix: limit integer settings to the range of int before
 narrowing them

---
 src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index 5e4217c..4d3ac46 100644
--- a/src/util.c
+++ b/src/util.c
@@ -169,7 +169,7 @@ char *ARMCII_Getenv(const char *varname) {
 int ARMCII_Getenv_int(const char *varname, int default_value) {
   const char *var = getenv(varname);
   if (var) {
-    int value = atol(var);
+    long value = atol(var);
     /* clamp to the range of int, just in case */
     if (value > INT_MAX) value = INT_MAX;
     if (value < INT_MIN) value = INT_MIN;
-- 
2.43.0


From c7fc8fbbf3491d2804022ae7237d1e8ff8fd297b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 19/22] fix: pause the progress thread for valid times of a
 second and more

---
 src/init_finalize.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index e0f27fe..70da136 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -2,6 +2,8 @@
  * Copyright (C) 2010. See COPYRIGHT in top-level directory.
  */
 
+#include <limits.h>
+
 #include <armci.h>
 #include <armci_internals.h>
 #include <debug.h>
@@ -41,9 +43,9 @@ static void * progress_function(void * arg)
 {
     volatile int * active = (volatile int*)arg;
 #if defined(HAVE_NANOSLEEP)
-    int naptime = 1000 * ARMCII_GLOBAL_STATE.progress_usleep;
-    struct timespec napstruct = { .tv_sec  = 0,
-                                  .tv_nsec = naptime };
+    int naptime = ARMCII_GLOBAL_STATE.progress_usleep;
+    struct timespec napstruct = { .tv_sec  = naptime / 1000000,
+                                  .tv_nsec = 1000L * (naptime % 1000000) };
 #elif defined(HAVE_USLEEP)
     int naptime = ARMCII_GLOBAL_STATE.progress_usleep;
 #endif
@@ -266,7 +268,8 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     if (ARMCII_GLOBAL_STATE.progress_thread && (ARMCII_GLOBAL_STATE.progress_usleep < 0)) {
         ARMCII_Warning("ARMCI progress thread is not a time machine. (%d)\n",
                        ARMCII_GLOBAL_STATE.progress_usleep);
-        ARMCII_GLOBAL_STATE.progress_usleep = -ARMCII_GLOBAL_STATE.progress_usleep;
+        ARMCII_GLOBAL_STATE.progress_usleep =
+            ARMCII_GLOBAL_STATE.progress_usleep < -INT_MAX ? INT_MAX : -ARMCII_GLOBAL_STATE.progress_usleep;
     }
 #endif /* HAVE_PTHREADS */
 #endif /* ENABLE_PROGRESS */
-- 
2.43.0


From b51da9d6fa410225769b36c1c9ea84c9db3812e8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:26:30 +0000
Subject: [PATCH 20/22] fix: read the version of the MPI library at its first
 occurrence and inside its buffers

---
 src/init_finalize.c | 95 +++++++++++++++++----------------------------
 1 file changed, 36 insertions(+), 59 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 70da136..c9c7ce5 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -74,6 +74,33 @@ enum ARMCII_MPI_Impl_e { ARMCII_MPICH,
                          ARMCII_CRAY_MPI,
                          ARMCII_UNKNOWN_MPI };
 
+/** Find the first "<major>.<minor>" in a string.
+  *
+  * @return The text after it, or "" (and 0.0) when there is none.
+  */
+static char * ARMCII_Find_version(char * s, int * major, int * minor)
+{
+    int number = 0, digits = 0, have_major = 0;
+
+    for (;; s++) {
+      if (*s >= '0' && *s <= '9') {
+        if (digits < 6) number = 10*number + (*s - '0');
+        digits++;
+        continue;
+      }
+      if (have_major && digits > 0) {
+        *minor = number;
+        return s;
+      }
+      have_major = (*s == '.' && digits > 0);
+      *major = have_major ? number : 0;
+      *minor = 0;
+      number = digits = 0;
+      if (*s == '\0') return s;
+    }
+}
+
+/* patch has room for at least 8 characters and is zeroed by the caller */
 static void ARMCII_Parse_library_version(char * library_version, enum ARMCII_MPI_Impl_e * impl,
                                          int * major, int * minor, char * patch)
 {
@@ -94,75 +121,25 @@ static void ARMCII_Parse_library_version(char * library_version, enum ARMCII_MPI
 
     if (is_mpich) {
       *impl = ARMCII_MPICH;
-      int mpich_major = 0;
-      int mpich_minor = 0;
-      char mpich_patch[4] = {0};
-      for (int major = 9; major >= 3; major--) {
-        for (int minor = 9; minor >= 0; minor--) {
-          char version_string[4] = {0};
-          sprintf(version_string,"%d.%d",major,minor);
-          char * p = strstr(library_version,version_string);
-          if (p != NULL) {
-            mpich_major = atoi(p);
-            mpich_minor = atoi(p+2);
-            strncpy(mpich_patch,p+3,4);
-            break;
-          }
-        }
-      }
-      *major = mpich_major;
-      *minor = mpich_minor;
-      strncpy(patch, mpich_patch, sizeof(mpich_patch));
+      char * rest = ARMCII_Find_version(library_version, major, minor);
+      strncpy(patch, rest, 4);
     }
 
     if (is_ompi) {
       *impl = ARMCII_OPEN_MPI;
-      int ompi_major = 0;
-      int ompi_minor = 0;
-      char ompi_patch[6] = {0}; /* ".PrcX" is max since major=2+ */
-      for (int major = 9; major >= 2; major--) {
-        for (int minor = 9; minor >= 0; minor--) {
-          char version_string[4] = {0};
-          sprintf(version_string,"%d.%d",major,minor);
-          char * p = strstr(library_version,version_string);
-          if (p != NULL) {
-            ompi_major = atoi(p);
-            ompi_minor = atoi(p+2);
-            strncpy(ompi_patch,p+3,4);
-            for (int c=0; c<sizeof(ompi_patch); c++) {
-              if (ompi_patch[c] == ',') {
-                ompi_patch[c] = '\0';
-                break;
-              }
-            }
-            break;
-          }
+      char * rest = ARMCII_Find_version(library_version, major, minor);
+      strncpy(patch, rest, 4); /* ".PrcX" is max since major=2+ */
+      for (int c=0; c<4; c++) {
+        if (patch[c] == ',') {
+          patch[c] = '\0';
+          break;
         }
       }
-      *major = ompi_major;
-      *minor = ompi_minor;
-      strncpy(patch, ompi_patch, sizeof(ompi_patch));
     }
 
     if (is_impi) {
       *impl = ARMCII_INTEL_MPI;
-      int impi_major = 0;
-      int impi_minor = 0;
-      char impi_patch[6] = {0}; /* ".PrcX" is max since major=2+ */
-      for (int major = 2030; major >= 2000; major--) {
-        for (int minor = 30; minor >= 0; minor--) {
-          char version_string[7] = {0};
-          sprintf(version_string,"%d.%d",major,minor);
-          char * p = strstr(library_version,version_string);
-          if (p != NULL) {
-            impi_major = atoi(p);
-            impi_minor = atoi(p+5);
-            break;
-          }
-        }
-      }
-      *major = impi_major;
-      *minor = impi_minor;
+      ARMCII_Find_version(library_version, major, minor);
       *patch = '\0';
     }
 }
-- 
2.43.0


From 6d0b7aa0474cd60bec7cac95975e8565dae8536e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:44:39 +0000
Subject: [PATCH 21/22] fix: synchronize windows before the barrier so local
 stores are public when it is left

---
 src/util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util.c b/src/util.c
index 4d3ac46..dee6c04 100644
--- a/src/util.c
+++ b/src/util.c
@@ -39,6 +39,7 @@ void ARMCI_Error(const char *msg, int code) {
   */
 void PARMCI_Barrier(void) {
   PARMCI_AllFence();
+  ARMCII_Sync(); /* make local stores visible before anyone leaves the barrier */
   MPI_Barrier(ARMCI_GROUP_WORLD.comm);
   ARMCII_Sync();
 }
-- 
2.43.0


From 6a6025b8767a90e43d99bb72d25453ce8866df68 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 22/22] fix: provide ARMCI_WaitProc where weak symbols are not
 used

---
 src/parmci.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parmci.c b/src/parmci.c
index a80f76c..62d4a24 100644
--- a/src/parmci.c
+++ b/src/parmci.c
@@ -172,6 +172,11 @@ int ARMCI_Test(armci_hdl_t* hdl) {
   return PARMCI_Test(hdl);
 }
 
+#pragma weak ARMCI_WaitProc
+int ARMCI_WaitProc(int proc) {
+  return PARMCI_WaitProc(proc);
+}
+
 #pragma weak ARMCI_WaitAll
 int ARMCI_WaitAll(void) {
   return PARMCI_WaitAll();
-- 
2.43.0

