From b304b3f2db04bf325721e632469370f97b27f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 01/33] fix: write the default groups into the caller's array,
 not behind the pointer to it

(*groups[0]) and (*groups[1]) parse as *(groups[0]) and *(groups[1]); the second
one dereferences whatever lies behind the caller's pointer on the stack.
---
 src/mpi/num_ports_factors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 0ac6d02..b6ad503 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -114,8 +114,8 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
-    (*num_ports)[0] = (*groups[0]) = -1;
-    (*num_ports)[1] = (*groups[1]) = 0;
+    (*num_ports)[0] = (*groups)[0] = -1;
+    (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
   } else if (!minimum_computation) {
     if (comm_rank_row == 0) {
-- 
2.43.0


From a2b399ee92a8b24f1f9a9bdcb29cc90633ba1002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 02/33] fix: let EXT_MPI_DEBUG switch the internal check and
 tell all ranks

A number was parsed but never used, and ext_mpi_verbose was broadcast instead of
ext_mpi_debug, so ranks could disagree about a collective check.
---
 src/mpi/ext_mpi.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index a4de601..bb5e4ed 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -74,15 +74,15 @@ static int read_env() {
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_DEBUG")) != NULL);
     if (var) {
-      if (sscanf(c, "%d", &var) == 0){
-        ext_mpi_debug = 0;
+      if (sscanf(c, "%d", &var) >= 1){
+        ext_mpi_debug = var;
       }
       if (ext_mpi_verbose) {
         printf("# EXT_MPI debug %d\n", ext_mpi_debug);
       }
     }
   }
-  MPI_Bcast(&ext_mpi_verbose, 1, MPI_INT, 0, MPI_COMM_WORLD);
+  MPI_Bcast(&ext_mpi_debug, 1, MPI_INT, 0, MPI_COMM_WORLD);
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_ALTERNATING")) != NULL);
     if (var) {
-- 
2.43.0


From abceb0db6bdc3e75de457596e67ab889da610197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 03/33] fix: measure the copyin on scratch buffers instead of
 the buffers of the user

---
 src/mpi/cost_copyin_measurement.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/mpi/cost_copyin_measurement.c b/src/mpi/cost_copyin_measurement.c
index 78d855b..1f396c0 100644
--- a/src/mpi/cost_copyin_measurement.c
+++ b/src/mpi/cost_copyin_measurement.c
@@ -1,4 +1,5 @@
 #include "cost_copyin_measurement.h"
+#include "constants.h"
 #include "ext_mpi_native.h"
 #include "prime_factors.h"
 #include "read_write.h"
@@ -158,6 +159,7 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
                                   int **copyin_factors, int *num_sockets_per_node) {
   int mpi_rank_row, mpi_size_row, i, j, k, copyin_factors_min[*my_cores_per_node_row+1], msize, copyin_method_min, num_sockets_per_node_min, num_sockets_per_node_max = 1, one_socket_only = 0;
   double time, time_min;
+  void *sendbuf_h = NULL, *recvbuf_h = NULL;
   if (*num_sockets_per_node == -1) {
     *num_sockets_per_node = -*num_sockets_per_node;
     one_socket_only = 1;
@@ -172,6 +174,23 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
     (*copyin_factors)[0] = 1;
     (*copyin_factors)[1] = 0;
   } else {
+#ifdef GPU_ENABLED
+    if (!ext_mpi_gpu_is_device_pointer(recvbuf)) {
+#endif
+      // the measurement is an allreduce of count elements, it must not write
+      // into the buffers of the user, which are possibly shorter or not significant
+      sendbuf_h = calloc(msize + 1, 1);
+      recvbuf_h = calloc(msize + 1, 1);
+      if (!sendbuf_h || !recvbuf_h) {
+        free(recvbuf_h);
+        free(sendbuf_h);
+        return ERROR_MALLOC;
+      }
+      sendbuf = sendbuf == recvbuf ? recvbuf_h : sendbuf_h;
+      recvbuf = recvbuf_h;
+#ifdef GPU_ENABLED
+    }
+#endif
     time_min = allreduce_measurement(sendbuf, recvbuf, count, datatype, op, comm_row, *my_cores_per_node_row, comm_column, my_cores_per_node_column, num_active_ports, &copyin_method_min, copyin_factors_min, *num_sockets_per_node);
     num_sockets_per_node_min = 1;
     if (*my_cores_per_node_row == mpi_size_row && !one_socket_only) num_sockets_per_node_max = 4;
@@ -212,6 +231,8 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
       *num_sockets_per_node = num_sockets_per_node_min;
       *my_cores_per_node_row /= num_sockets_per_node_min;
     }
+    free(recvbuf_h);
+    free(sendbuf_h);
   }
   return 0;
 }
-- 
2.43.0


From 700c72d737239c50c2cb38fcee4ce1311f469441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 04/33] fix: run the internal check on scratch buffers instead
 of the buffers of the user

---
 src/mpi/debug_persistent.c | 58 ++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/mpi/debug_persistent.c b/src/mpi/debug_persistent.c
index 6bdfdc9..cc8ad08 100644
--- a/src/mpi/debug_persistent.c
+++ b/src/mpi/debug_persistent.c
@@ -12,7 +12,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
                                   MPI_Datatype recvtype, MPI_Comm comm,
                                   MPI_Info info, int *handle) {
   int comm_size_row, type_size, i;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   int world_rank, comm_rank_row, max_sendcount, max_displs, j, k;
 #ifdef GPU_ENABLED
   void *sendbuf_hh = NULL, *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL;
@@ -61,9 +61,12 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
     ext_mpi_gpu_memcpy_hd(recvbuf, recvbuf_hh, j * type_size);
   } else {
 #endif
-    recvbuf_ref = (void *)malloc(j * type_size);
+    recvbuf_ref = (void *)calloc(j + 1, type_size);
     if (!recvbuf_ref)
       goto error;
+    recvbuf = recvbuf_h = (void *)calloc(j + 1, type_size);
+    if (!recvbuf_h)
+      goto error;
     sendbuf_h = (void *)malloc(sendcount * type_size);
     if (!sendbuf_h)
       goto error;
@@ -134,6 +137,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
 #endif
     free(sendbuf_h);
     free(recvbuf_ref);
+    free(recvbuf_h);
 #ifdef GPU_ENABLED
   }
 #endif
@@ -141,6 +145,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
 error:
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_h);
   return ERROR_MALLOC;
 }
 
@@ -151,7 +156,7 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
                                MPI_Comm comm,
                                MPI_Info info, int *handle) {
   int comm_size_row, type_size, world_rank, comm_rank_row, max_sendcount, max_displs, i, j, k;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
   MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
@@ -165,9 +170,12 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
       max_displs = displs[i];
   }
   j = max_displs + max_sendcount;
-  recvbuf_ref = (void *)malloc(j * type_size);
+  recvbuf_ref = (void *)calloc(j + 1, type_size);
   if (!recvbuf_ref)
     goto error;
+  recvbuf = recvbuf_h = (void *)calloc(j + 1, type_size);
+  if (!recvbuf_h)
+    goto error;
   sendbuf_h = (void *)malloc(sendcount * type_size);
   if (!sendbuf_h)
     goto error;
@@ -203,10 +211,12 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
   }
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_h);
   return 0;
 error:
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_h);
   return ERROR_MALLOC;
 }
 
@@ -214,7 +224,7 @@ int ext_mpi_reduce_scatter_init_debug(
     const void *sendbuf, void *recvbuf, const int *recvcounts, MPI_Datatype datatype,
     MPI_Op op, MPI_Comm comm, MPI_Info info, int *handle) {
   int comm_size_row, type_size, i, j;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   int world_rank, comm_rank_row, tsize;
 #ifdef GPU_ENABLED
   void *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL, *sendbuf_hh = NULL;
@@ -250,6 +260,9 @@ int ext_mpi_reduce_scatter_init_debug(
       recvbuf_ref = malloc(recvcounts[comm_rank_row] * type_size);
       if (!recvbuf_ref)
         goto error;
+      recvbuf = recvbuf_h = malloc(recvcounts[comm_rank_row] * type_size);
+      if (!recvbuf_h)
+        goto error;
       sendbuf_h = malloc(tsize * type_size);
       if (!sendbuf_h)
         goto error;
@@ -315,6 +328,7 @@ int ext_mpi_reduce_scatter_init_debug(
       }
       free(sendbuf_h);
       free(recvbuf_ref);
+      free(recvbuf_h);
 #ifdef GPU_ENABLED
     }
 #endif
@@ -327,6 +341,7 @@ int ext_mpi_reduce_scatter_init_debug(
 error:
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_h);
   return ERROR_MALLOC;
 }
 
@@ -336,7 +351,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
                                 int root, MPI_Comm comm,
                                 MPI_Info info, int *handle) {
   int comm_size_row, type_size, world_rank, comm_rank_row, i, j, k;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
   MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
@@ -344,6 +359,9 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
   recvbuf_ref = (long int *)malloc(recvcount * type_size);
   if (!recvbuf_ref)
     goto error;
+  recvbuf = recvbuf_h = (long int *)malloc(recvcount * type_size);
+  if (!recvbuf_h)
+    goto error;
   sendbuf_h = malloc(
       (displs[comm_size_row - 1] + sendcounts[comm_size_row - 1]) * type_size);
   if (!sendbuf_h)
@@ -380,10 +398,12 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
   }
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_h);
   return 0;
 error:
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_h);
   return ERROR_MALLOC;
 }
 
@@ -397,7 +417,7 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
   void *sendbuf_hh = NULL, *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL;
 #endif
   int world_rankd;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
@@ -479,6 +499,9 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
     recvbuf_ref = (long int *)malloc(count * type_size);
     if (!recvbuf_ref)
       goto error;
+    recvbuf = recvbuf_h = (long int *)malloc(count * type_size);
+    if (!recvbuf_h)
+      goto error;
     if (sendbuf != MPI_IN_PLACE){
       sendbuf_h = (long int *)malloc(count * type_size);
       if (!sendbuf_h)
@@ -529,6 +552,7 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       free(sendbuf_h);
     }
     free(recvbuf_ref);
+    free(recvbuf_h);
 #ifdef GPU_ENABLED
   }
 #endif
@@ -557,6 +581,7 @@ error:
     free(sendbuf_h);
   }
   free(recvbuf_ref);
+  free(recvbuf_h);
   return ERROR_MALLOC;
 }
 
@@ -569,7 +594,7 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
   void *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL, *sendbuf_hh = NULL;
 #endif
   int world_rankd;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
@@ -622,6 +647,9 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       recvbuf_ref = (long int *)malloc(count * type_size);
       if (!recvbuf_ref)
         goto error;
+      recvbuf = recvbuf_h = (long int *)malloc(count * type_size);
+      if (!recvbuf_h)
+        goto error;
       sendbuf_h = (long int *)malloc(count * type_size);
       if (!sendbuf_h)
         goto error;
@@ -661,6 +689,7 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       }
       free(sendbuf_h);
       free(recvbuf_ref);
+      free(recvbuf_h);
 #ifdef GPU_ENABLED
     }
 #endif
@@ -684,6 +713,7 @@ error:
 #endif
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_h);
   return ERROR_MALLOC;
 }
 
@@ -695,7 +725,7 @@ int ext_mpi_bcast_init_debug(void *buffer, int count, MPI_Datatype datatype,
   void *buffer_hh = NULL, *buffer_ref_hh = NULL;
 #endif
   int world_rankd;
-  void *buffer_ref = NULL, *buffer_org = NULL;
+  void *buffer_ref = NULL, *buffer_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
@@ -738,10 +768,9 @@ int ext_mpi_bcast_init_debug(void *buffer, int count, MPI_Datatype datatype,
     buffer_ref = (long int *)malloc(count * type_size);
     if (!buffer_ref)
       goto error;
-    buffer_org = (long int *)malloc(count * type_size);
-    if (!buffer_org)
+    buffer = buffer_h = (long int *)malloc(count * type_size);
+    if (!buffer_h)
       goto error;
-    memcpy(buffer_org, buffer, count * type_size);
     for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
       ((long int *)buffer_ref)[i] = ((long int *)buffer)[i] =
           world_rankd * count + i + 1073;
@@ -761,8 +790,7 @@ int ext_mpi_bcast_init_debug(void *buffer, int count, MPI_Datatype datatype,
         j = 1;
       }
     }
-    memcpy(buffer, buffer_org, count * type_size);
-    free(buffer_org);
+    free(buffer_h);
     free(buffer_ref);
 #ifdef GPU_ENABLED
   }
@@ -781,7 +809,7 @@ error:
     buffer_ref = NULL;
   }
 #endif
-  free(buffer_org);
+  free(buffer_h);
   free(buffer_ref);
   return ERROR_MALLOC;
 }
-- 
2.43.0


From 03536bf4c7387909b5736de7cb78ab87532e483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 05/33] fix: compare the socket with the socket of the root,
 not with its rank

---
 src/mpi/backward_interpreter.c | 2 +-
 src/mpi/forward_interpreter.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/backward_interpreter.c b/src/mpi/backward_interpreter.c
index 57ee9cf..f675184 100644
--- a/src/mpi/backward_interpreter.c
+++ b/src/mpi/backward_interpreter.c
@@ -54,7 +54,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   for (i = 0; i < data.blocks[data.num_blocks - 1].num_lines; i++) {
     for (j = 0; j < data.blocks[data.num_blocks - 1].lines[i].sendto_max; j++) {
       if ((data.blocks[data.num_blocks - 1].lines[i].sendto_node[j] == -1) &&
-          (parameters->socket == parameters->root)) {
+          (parameters->socket == parameters->root / parameters->socket_row_size)) {
         values[data.num_blocks - 1][i] = 2;
       }
     }
diff --git a/src/mpi/forward_interpreter.c b/src/mpi/forward_interpreter.c
index 7a24999..494c376 100644
--- a/src/mpi/forward_interpreter.c
+++ b/src/mpi/forward_interpreter.c
@@ -51,9 +51,9 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
       values[i][j] = 0;
     }
   }
-  k = parameters->socket == parameters->root;
+  k = parameters->socket == parameters->root / parameters->socket_row_size;
   if (parameters->root <= -10) {
-    k = parameters->socket == (-10 - parameters->root);
+    k = parameters->socket == (-10 - parameters->root) / parameters->socket_row_size;
   }
   for (i = 0; i < data.blocks[0].num_lines; i++) {
     for (j = 0; j < data.blocks[0].lines[i].recvfrom_max; j++) {
-- 
2.43.0


From 499e53490f7e08c4b23d57a294078d215921681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 06/33] fix: do not read the fast layout when the copyin did
 not write it (small allgather and bcast)

---
 src/core/reduce_copyout.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/reduce_copyout.c b/src/core/reduce_copyout.c
index 446a80f..c5a749c 100644
--- a/src/core/reduce_copyout.c
+++ b/src/core/reduce_copyout.c
@@ -54,7 +54,9 @@ int ext_mpi_generate_reduce_copyout(char *buffer_in, char *buffer_out) {
   counts = parameters->counts;
   iocounts_max = parameters->iocounts_max;
   iocounts = parameters->iocounts;
-  if (!parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
+  // only the reducing copyin puts the data into the fast layout
+  if (!parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST &&
+      parameters->collective_type != collective_type_allgatherv && parameters->root > -10) {
     fast = 1;
   }
   switch (parameters->data_type) {
-- 
2.43.0


From 6730d24efaec3f7a81dc3d46f22788e7fa480c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 07/33] fix: gatherv on a single socket delivers nothing, use
 the ports of allgatherv

---
 src/mpi/ext_mpi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index bb5e4ed..e1c218c 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -344,6 +344,7 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   for (i = 0; i < comm_size_row; i++) {
     rcount += recvcounts[i];
   }
+  if (groups[0] == -1 && groups[1] == 0) num_ports[0] = 1;
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
-- 
2.43.0


From eb8d988de4413c14e6e8ea963840e6657d5596b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 08/33] fix: reduce has to adapt the ports when the measurement
 splits the node into sockets

---
 src/mpi/ext_mpi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index e1c218c..90184c0 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -773,6 +773,9 @@ int ext_mpi_reduce_init_general(const void *sendbuf, void *recvbuf, int count,
           my_cores_per_node, &copyin_method, &copyin_factors, &num_sockets_per_node);
     }
   }
+  if (num_sockets_per_node_ == 1) {
+    ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
+  }
   if (ext_mpi_verbose) {
     if (ext_mpi_is_rank_zero(comm, MPI_COMM_NULL)){
       printf("# EXT_MPI MPI tasks per socket: %d\n", my_cores_per_node);
-- 
2.43.0


From 4baa48fea2cb972fd07e59171368f156270d3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 09/33] fix: scatterv needs the ports of a reduce_scatter
 (negative) on more than one socket

---
 src/mpi/ext_mpi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 90184c0..cc94aca 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -568,9 +568,10 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   for (i = 0; num_ports[i]; i++);
   for (j = 0; j < i / 2; j++) {
     k = num_ports[j];
-    num_ports[j] = num_ports[i - 1 - j];
-    num_ports[i - 1 - j] = k;
+    num_ports[j] = -num_ports[i - 1 - j];
+    num_ports[i - 1 - j] = -k;
   }
+  if (i % 2) num_ports[i / 2] = -num_ports[i / 2];
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
-- 
2.43.0


From 121898e33530dd9eecea050af28795f92a9a0997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 10/33] fix: the internal check of scatterv transferred
 MPI_LONG whatever the type is

---
 src/mpi/debug_persistent.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mpi/debug_persistent.c b/src/mpi/debug_persistent.c
index cc8ad08..916a419 100644
--- a/src/mpi/debug_persistent.c
+++ b/src/mpi/debug_persistent.c
@@ -350,7 +350,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
                                 int recvcount, MPI_Datatype recvtype,
                                 int root, MPI_Comm comm,
                                 MPI_Info info, int *handle) {
-  int comm_size_row, type_size, world_rank, comm_rank_row, i, j, k;
+  int comm_size_row, type_size, world_rank, comm_rank_row, max_send = 0, i, j, k;
   void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
@@ -362,22 +362,21 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
   recvbuf = recvbuf_h = (long int *)malloc(recvcount * type_size);
   if (!recvbuf_h)
     goto error;
-  sendbuf_h = malloc(
-      (displs[comm_size_row - 1] + sendcounts[comm_size_row - 1]) * type_size);
+  for (i = 0; i < comm_size_row; i++) {
+    if (displs[i] + sendcounts[i] > max_send)
+      max_send = displs[i] + sendcounts[i];
+  }
+  sendbuf_h = calloc(max_send + 1, type_size);
   if (!sendbuf_h)
     goto error;
   k = 0;
   for (i = 0; i < comm_size_row; i++) {
     for (j = 0; j < (sendcounts[i] * type_size) / (int)sizeof(long int); j++) {
       ((long int *)((char *)sendbuf_h + displs[i] * type_size))[j] =
-          world_rank *
-              (((displs[comm_size_row - 1] + sendcounts[comm_size_row - 1]) *
-                type_size) /
-               (int)sizeof(long int)) +
-          k++;
+          world_rank * ((max_send * type_size) / (int)sizeof(long int)) + k++;
     }
   }
-  MPI_Scatterv(sendbuf_h, sendcounts, displs, MPI_LONG, recvbuf_ref, recvcount, MPI_LONG, root, comm);
+  MPI_Scatterv(sendbuf_h, sendcounts, displs, sendtype, recvbuf_ref, recvcount, recvtype, root, comm);
   if (ext_mpi_scatterv_init_general(sendbuf_h, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype, root, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
-- 
2.43.0


From 81f28f0efbc069eff556abc4768f85554410fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 11/33] fix: reduce_scatter with one task per socket dropped
 the rank permutation (uneven counts)

---
 src/mpi/ext_mpi_native.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index b520ed9..e198c1a 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1555,6 +1555,11 @@ int EXT_MPI_Reduce_scatter_init_native(
         goto error;
     }
 #endif
+  } else {
+    // the input of the next step is the permuted algorithm
+    buffer_temp = buffer1;
+    buffer1 = buffer2;
+    buffer2 = buffer_temp;
   }
   if (my_mpi_size_row / my_cores_per_node_row > 1) {
     if (ext_mpi_generate_reduce_copyin(buffer1, buffer2) < 0)
-- 
2.43.0


From 7fb62a65f427945dca1f46211fdd08f682f98594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:30 +0000
Subject: [PATCH 12/33] fix: raw_code_tasks_node reads behind the rank
 permutation on a single socket

---
 src/mpi/ext_mpi_native.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index e198c1a..df9b57e 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -762,7 +762,8 @@ buffer2 = buffer_temp;
     buffer1 = buffer2;
     buffer2 = buffer_temp;
   }
-  if (my_cores_per_node_row * my_cores_per_node_column > 1) {
+  // a single socket does not exchange messages with other sockets
+  if (my_cores_per_node_row * my_cores_per_node_column > 1 && my_mpi_size_row / my_cores_per_node_row > 1) {
 #ifdef GPU_ENABLED
   if (!gpu_is_device_pointer(recvbuf)) {
 #endif
@@ -1543,7 +1544,8 @@ int EXT_MPI_Reduce_scatter_init_native(
   }
   if (ext_mpi_generate_rank_permutation_backward(buffer1, buffer2) < 0)
     goto error;
-  if (my_cores_per_node_row * my_cores_per_node_column > 1) {
+  // a single socket does not exchange messages with other sockets
+  if (my_cores_per_node_row * my_cores_per_node_column > 1 && my_mpi_size_row / my_cores_per_node_row > 1) {
 #ifdef GPU_ENABLED
     if (!gpu_is_device_pointer(recvbuf)) {
 #endif
-- 
2.43.0


From 47f809044f923327752ab0c140481b89eb8736d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:41 +0000
Subject: [PATCH 13/33] fix: the root of scatterv and bcast has to copy in the
 order of the algorithm (permuted ranks)

---
 src/core/reduce_copyin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 68e1f7b..e9b4aa2 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -493,8 +493,8 @@ int ext_mpi_generate_reduce_copyin(char *buffer_in, char *buffer_out) {
                parameters->socket_rank ==
            -10 - parameters->root)) {
         add = 0;
-        for (i = 0; i < num_nodes; i++) {
-          j = (num_nodes + i + parameters->socket) % num_nodes;
+        for (i = 0; i < data.blocks[0].num_lines && add < moffsets[num_nodes]; i++) {
+          j = data.blocks[0].lines[i].frac;
           data_memcpy_reduce.type = ememcpy;
           data_memcpy_reduce.buffer_type1 = eshmemo;
           data_memcpy_reduce.buffer_number1 = 0;
-- 
2.43.0


From 6c6fb2ffd96b63f2cf3f5e74f759cd37dd982ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:06 +0000
Subject: [PATCH 14/33] fix: copyin method 1 has to use the fast layout if the
 copyin wrote it

---
 src/core/reduce_copyin.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index e9b4aa2..48ee2f1 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -318,8 +318,13 @@ nparallel = 2;
     } else {
       lrank = rank - hsocket_size;
     }
-    offset1 = lrank * size + add_local;
-    offset2 = (lrank + hsocket_size) * size + add_local;
+    if (!fast) {
+      offset1 = lrank * size + add_local;
+      offset2 = (lrank + hsocket_size) * size + add_local;
+    } else {
+      offset1 = lrank * CACHE_LINE_SIZE + OFFSET_FAST + add_local;
+      offset2 = (lrank + hsocket_size) * CACHE_LINE_SIZE + OFFSET_FAST + add_local;
+    }
     nbuffer_out += write_memcpy_reduce(esreduce, eshmemo, 0, fast, offset1, eshmemo, 0, fast, offset2, size_local, 0, buffer_out + nbuffer_out, ascii);
     nbuffer_out += local_barrier(-nparallel, nparallel, ranks, buffer_out + nbuffer_out, ascii);
   } else {
-- 
2.43.0


From a04c3719374716a78628eaa04dd5c9782448d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:39 +0000
Subject: [PATCH 15/33] fix: division by zero in the copyin of an empty message

---
 src/core/reduce_copyin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 48ee2f1..b7f1ead 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -531,7 +531,7 @@ int ext_mpi_generate_reduce_copyin(char *buffer_in, char *buffer_out) {
         ;
       instance_max = (j - 1) / gbstep;
       fast = !parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST;
-      if (fast) {
+      if (fast && moffsets[num_nodes] > 0) {
         type_size = moffsets[num_nodes];
       }
       nbuffer_out += ext_mpi_write_assembler_line(buffer_out + nbuffer_out, parameters->ascii_out, "s", esocket_barrier);
-- 
2.43.0


From 17686ec4522d8da60f2f63daaff003a4c15af319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:02 +0000
Subject: [PATCH 16/33] fix: one task per socket but several sockets exchange
 data through the shared memory

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index df9b57e..7a66d9c 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -849,7 +849,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && num_sockets_per_node == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From a4ced9ee97468eade1bebd074cecabf6ff1d2507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 17/33] fix: renumber the requests left after replacing
 messages inside of a node by copies

---
 src/mpi/messages_shared_memory.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mpi/messages_shared_memory.c b/src/mpi/messages_shared_memory.c
index b3f228a..030e6d2 100644
--- a/src/mpi/messages_shared_memory.c
+++ b/src/mpi/messages_shared_memory.c
@@ -91,6 +91,22 @@ static int delete_from_list(struct line_list **lines_listed_org, int socket, int
   return ret;
 }
 
+/* the requests which are left after deleting messages have to be the ones ewaitall waits for */
+static void renumber_requests(struct line_list *lines_listed){
+  struct line_irecv_isend data_irecv_isend;
+  enum eassembler_type estring1;
+  int request = 0;
+  while (lines_listed) {
+    ext_mpi_read_assembler_line(lines_listed->line, 0, "s", &estring1);
+    if ((estring1 == eisend) || (estring1 == eirecv)) {
+      ext_mpi_read_irecv_isend(lines_listed->line, &data_irecv_isend);
+      data_irecv_isend.tag = request++;
+      ext_mpi_write_irecv_isend(lines_listed->line, &data_irecv_isend, 0);
+    }
+    lines_listed = lines_listed->next;
+  }
+}
+
 static struct line_list* new_last_element(struct line_list **lines_listed_org){
   struct line_list *p;
   if (*lines_listed_org == NULL){
@@ -188,6 +204,7 @@ int ext_mpi_messages_shared_memory(char *buffer_in, char *buffer_out, MPI_Comm c
         free(data_irecv_isend_list_temp);
       }
       data_irecv_isend_list_send = NULL;
+      renumber_requests(lines_listed_org);
       nbuffer_out += flush_lines(buffer_out + nbuffer_out, &lines_listed_org, 1, ascii_out);
       lines_listed_org = lines_listed = (struct line_list*)malloc(sizeof(struct line_list));
       lines_listed->next = NULL;
-- 
2.43.0


From 50c95ab249466a7a383e6bb4d57f7d8282a059dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 18/33] fix: MPI_Test has to return when a barrier is not
 complete and to go on when it is

---
 src/mpi/ext_mpi_native_exec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 6ea827e..86dc198 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -331,7 +331,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_cores);
       } else {
         *ip_exec = ip - 1;
-        if (!socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
+        if (socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
                                  header->socket_rank, header->num_cores)) {
           return 0;
         } else {
@@ -346,7 +346,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_sockets_per_node);
       } else {
         *ip_exec = ip - 1;
-        if (!node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
+        if (node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
                                  header->socket_rank, header->num_sockets_per_node)) {
           return 0;
         } else {
@@ -364,7 +364,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
         socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
       } else {
         *ip_exec = ip - 1 - sizeof(int);
-        if (!socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket, i1)) {
+        if (socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket, i1)) {
           return 0;
         } else {
           socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
-- 
2.43.0


From b1945fd44494fbb44b39f8116b79c474118adda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 19/33] fix: MPI_Testall without statuses never reported
 incomplete requests

---
 src/mpi/ext_mpi_interface.c | 51 ++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 3195e2e..0670005 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -220,31 +220,42 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
   }
 }
 
+/* a copy of the requests without the ones of this library */
+static MPI_Request *foreign_requests(int count, MPI_Request array_of_requests[]){
+  MPI_Request *requests;
+  int i;
+  requests = (MPI_Request *)malloc(count * sizeof(MPI_Request));
+  if (requests == NULL) return NULL;
+  for (i=0; i<count; i++){
+    if (ext_mpi_hash_search(&array_of_requests[i]) >= 0){
+      requests[i] = MPI_REQUEST_NULL;
+    }else{
+      requests[i] = array_of_requests[i];
+    }
+  }
+  return requests;
+}
+
 int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Status array_of_statuses[]){
-  int ret, lflag, i;
+  MPI_Request *requests;
+  int ret, handle, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testall(count, array_of_requests, flag, array_of_statuses);
   }
-  if (array_of_statuses == MPI_STATUSES_IGNORE){
-    *flag = 1;
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &lflag, MPI_STATUS_IGNORE);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-      if (!lflag) flag=0;
-    }
-  }else{
-    *flag = 1;
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &lflag, &array_of_statuses[i]);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-      if (!lflag) *flag=0;
-    }
+  *flag = 1;
+  for (i=0; i<count; i++){
+    handle = ext_mpi_hash_search(&array_of_requests[i]);
+    if (handle >= 0 && !EXT_MPI_Test(handle)) *flag = 0;
   }
-  return MPI_SUCCESS;
+  if (!*flag) return MPI_SUCCESS;
+  requests = foreign_requests(count, array_of_requests);
+  if (requests == NULL) return MPI_ERR_INTERN;
+  ret = PMPI_Testall(count, requests, flag, array_of_statuses);
+  for (i=0; i<count && *flag; i++){
+    if (ext_mpi_hash_search(&array_of_requests[i]) < 0) array_of_requests[i] = requests[i];
+  }
+  free(requests);
+  return ret;
 }
 
 int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag, MPI_Status *status){
-- 
2.43.0


From a78bc2aac94efb84bf5a28257a8eba5ff72a0d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:37 +0000
Subject: [PATCH 20/33] fix: Waitany, Testany, Waitsome and Testsome have to
 ignore inactive requests

---
 include/mpi/ext_mpi_native.h |   2 +
 src/mpi/ext_mpi_interface.c  | 118 ++++++++++++++++++++---------------
 src/mpi/ext_mpi_native.c     |  11 ++++
 3 files changed, 80 insertions(+), 51 deletions(-)

diff --git a/include/mpi/ext_mpi_native.h b/include/mpi/ext_mpi_native.h
index 6cf2b08..c4a8a80 100644
--- a/include/mpi/ext_mpi_native.h
+++ b/include/mpi/ext_mpi_native.h
@@ -55,6 +55,8 @@ int EXT_MPI_Scatterv_init_native(const void *sendbuf, const int *sendcounts, con
                                  int *groups,
                                  int copyin, int alt, int not_recursive, int blocking, int num_sockets_per_node, int shmem_zero, char *locmem);
 int EXT_MPI_Start_native(int handle);
+int EXT_MPI_Active_native(int handle);
+void EXT_MPI_Set_active_native(int handle, int active);
 int EXT_MPI_Test_native(int handle);
 int EXT_MPI_Progress_native();
 int EXT_MPI_Wait_native(int handle);
diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 0670005..b1e93d0 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -5,6 +5,7 @@
 #include "hash_table.h"
 #include "hash_table_blocking.h"
 #include "ext_mpi.h"
+#include "ext_mpi_native.h"
 #include "ext_mpi_blocking.h"
 #include "ext_mpi_interface.h"
 
@@ -178,64 +179,55 @@ int MPI_Waitall(int count, MPI_Request array_of_requests[], MPI_Status array_of_
   return MPI_SUCCESS;
 }
 
+/* a copy of the requests without the ones of this library */
+static MPI_Request *foreign_requests(int count, MPI_Request array_of_requests[]){
+  MPI_Request *requests;
+  int i;
+  requests = (MPI_Request *)malloc(count * sizeof(MPI_Request));
+  if (requests == NULL) return NULL;
+  for (i=0; i<count; i++){
+    if (ext_mpi_hash_search(&array_of_requests[i]) >= 0){
+      requests[i] = MPI_REQUEST_NULL;
+    }else{
+      requests[i] = array_of_requests[i];
+    }
+  }
+  return requests;
+}
+
 int MPI_Waitany(int count, MPI_Request array_of_requests[], int *indx, MPI_Status *status){
-  int ret, flag, i;
+  int ret, flag;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Waitany(count, array_of_requests, indx, status);
   }
-  while (1){
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &flag, status);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-      if (flag){
-        *indx = i;
-        return MPI_SUCCESS;
-      }
-    }
-  }
-  return MPI_SUCCESS;
+  do {
+    ret = MPI_Testany(count, array_of_requests, indx, &flag, status);
+  } while (ret == MPI_SUCCESS && !flag);
+  return ret;
 }
 
 int MPI_Waitsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
+  int ret;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Waitsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
-  if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Waitany(incount, array_of_requests, &array_of_indices[0], MPI_STATUS_IGNORE);
-  }else{
-    return MPI_Waitany(incount, array_of_requests, &array_of_indices[0], &array_of_statuses[0]);
-  }
+  do {
+    ret = MPI_Testsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
+  } while (ret == MPI_SUCCESS && *outcount == 0);
+  return ret;
 }
 
 int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
     *flag=EXT_MPI_Test(handle);
+    if (*flag) EXT_MPI_Set_active_native(handle, 0);
     return MPI_SUCCESS;
   }else{
     return PMPI_Test(request, flag, status);
   }
 }
 
-/* a copy of the requests without the ones of this library */
-static MPI_Request *foreign_requests(int count, MPI_Request array_of_requests[]){
-  MPI_Request *requests;
-  int i;
-  requests = (MPI_Request *)malloc(count * sizeof(MPI_Request));
-  if (requests == NULL) return NULL;
-  for (i=0; i<count; i++){
-    if (ext_mpi_hash_search(&array_of_requests[i]) >= 0){
-      requests[i] = MPI_REQUEST_NULL;
-    }else{
-      requests[i] = array_of_requests[i];
-    }
-  }
-  return requests;
-}
-
 int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Status array_of_statuses[]){
   MPI_Request *requests;
   int ret, handle, i;
@@ -252,43 +244,67 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
   if (requests == NULL) return MPI_ERR_INTERN;
   ret = PMPI_Testall(count, requests, flag, array_of_statuses);
   for (i=0; i<count && *flag; i++){
-    if (ext_mpi_hash_search(&array_of_requests[i]) < 0) array_of_requests[i] = requests[i];
+    handle = ext_mpi_hash_search(&array_of_requests[i]);
+    if (handle >= 0){
+      EXT_MPI_Set_active_native(handle, 0);
+    }else{
+      array_of_requests[i] = requests[i];
+    }
   }
   free(requests);
   return ret;
 }
 
 int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag, MPI_Status *status){
-  int ret, lflag, i;
+  MPI_Request *requests;
+  int ret, handle, active = 0, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testany(count, array_of_requests, indx, flag, status);
   }
-  *flag = 0;
+  requests = foreign_requests(count, array_of_requests);
+  if (requests == NULL) return MPI_ERR_INTERN;
+  ret = PMPI_Testany(count, requests, indx, flag, status);
+  if (ret != MPI_SUCCESS || (*flag && *indx != MPI_UNDEFINED)){
+    if (*flag && *indx != MPI_UNDEFINED) array_of_requests[*indx] = requests[*indx];
+    free(requests);
+    return ret;
+  }
+  free(requests);
   for (i=0; i<count; i++){
-    ret = MPI_Test(&array_of_requests[i], &lflag, status);
-    if (ret != MPI_SUCCESS){
-      return ret;
-    }
-    if (lflag){
-      *flag = 1;
-      *indx = i;
-      return MPI_SUCCESS;
+    handle = ext_mpi_hash_search(&array_of_requests[i]);
+    if (handle >= 0 && EXT_MPI_Active_native(handle)){
+      active = 1;
+      if (EXT_MPI_Test(handle)){
+        EXT_MPI_Set_active_native(handle, 0);
+        *flag = 1;
+        *indx = i;
+        return MPI_SUCCESS;
+      }
     }
   }
+  if (active) *flag = 0;
+  *indx = MPI_UNDEFINED;
   return MPI_SUCCESS;
 }
 
 int MPI_Testsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
-  int flag;
+  int ret, flag;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Testsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
   if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
+    ret = MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
+  }else{
+    ret = MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
+  }
+  if (!flag){
+    *outcount = 0;
+  }else if (array_of_indices[0] == MPI_UNDEFINED){
+    *outcount = MPI_UNDEFINED;
   }else{
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
+    *outcount = 1;
   }
+  return ret;
 }
 
 int MPI_Allgather_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, MPI_Comm comm, MPI_Info info, MPI_Request *request){
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 7a66d9c..291ed5b 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -243,9 +243,19 @@ int EXT_MPI_Start_native(int handle) {
   execution_pointer[handle] =
       comm_code[handle] + sizeof(struct header_byte_code);
   active_wait[handle] = 0;
+  EXT_MPI_Set_active_native(handle, 1);
   return (0);
 }
 
+/* a request is active from its start until its completion is reported to the user */
+int EXT_MPI_Active_native(int handle) {
+  return active_wait[handle + 1];
+}
+
+void EXT_MPI_Set_active_native(int handle, int active) {
+  active_wait[handle + 1] = active;
+}
+
 int EXT_MPI_Test_native(int handle) {
   active_wait[handle] = 1;
   if (execution_pointer[handle]) {
@@ -277,6 +287,7 @@ int EXT_MPI_Wait_native(int handle) {
                         active_wait[handle]);
   }
   active_wait[handle] = 0;
+  EXT_MPI_Set_active_native(handle, 0);
   return (0);
 }
 
-- 
2.43.0


From cd9a76d2405ca03ba50f3434db986eda3ca3d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:26 +0000
Subject: [PATCH 21/33] fix: testing a barrier again must not take back what is
 already announced

---
 src/mpi/ext_mpi_native_exec.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 86dc198..134908e 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -36,7 +36,10 @@ static void node_barrier(char **shmem, int *barrier_count, int socket_rank, int
 static int node_barrier_test(char **shmem, int barrier_count, int socket_rank, int num_sockets_per_node) {
   int step;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
-    ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
+    // never step back behind a value which is already set, the others could miss it again and again
+    if ((unsigned int)(((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
+      ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
+    }
     if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
       return 1;
     }
@@ -58,7 +61,10 @@ static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int
 static int socket_barrier_test(char *shmem, int barrier_count, int socket_rank, int num_cores) {
   int step;
   for (step = 1; step < num_cores; step <<= 1) {
-    ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
+    // never step back behind a value which is already set, the others could miss it again and again
+    if ((unsigned int)(((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
+      ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
+    }
     if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
       return 1;
     }
-- 
2.43.0


From 130723b675da9308a334a83f328bac670a3219bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 22/33] fix: searching in a full hash table never ended

---
 src/mpi/hash_table.c          | 53 ++++++++++++++++++++++++++---------
 src/mpi/hash_table_blocking.c | 53 ++++++++++++++++++++++++++---------
 2 files changed, 80 insertions(+), 26 deletions(-)

diff --git a/src/mpi/hash_table.c b/src/mpi/hash_table.c
index 7e132b0..58bb717 100644
--- a/src/mpi/hash_table.c
+++ b/src/mpi/hash_table.c
@@ -13,6 +13,7 @@ struct DataItem {
 };
 
 static struct DataItem** hashArray;
+static int hashSize = SIZE;
 static struct DataItem* dummyItem;
 
 static int hashCode(MPI_Request *key) {
@@ -26,41 +27,66 @@ static int hashCode(MPI_Request *key) {
 
 int ext_mpi_hash_search(MPI_Request *key) {
    int hashIndex = hashCode(key);  
+   int steps = 0;
 
-   while(hashArray[hashIndex] != NULL) {
+   while(hashArray[hashIndex] != NULL && steps++ < hashSize) {
 
       if(hashArray[hashIndex]->key == *key)
          return hashArray[hashIndex]->data;
 
       ++hashIndex;
 
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }        
 
    return -1;
 }
 
+static int insert_item(struct DataItem *item) {
+   int hashIndex = hashCode(&item->key);
+   int steps = 0;
+
+   while(hashArray[hashIndex] != NULL && hashArray[hashIndex] != dummyItem) {
+      if(++steps >= hashSize)
+         return -1;
+      ++hashIndex;
+		
+      hashIndex %= hashSize;
+   }
+	
+   hashArray[hashIndex] = item;
+   return 0;
+}
+
 void ext_mpi_hash_insert(MPI_Request *key, int data) {
 
    struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem));
+   struct DataItem **oldArray;
+   int i;
    item->data = data;  
    item->key = *key;
 
-   int hashIndex = hashCode(key);
-
-   while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_REQUEST_NULL) {
-      ++hashIndex;
-		
-      hashIndex %= SIZE;
+   if(insert_item(item) < 0) {
+      // the table is full
+      oldArray = hashArray;
+      hashSize *= 2;
+      hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+      for (i=0; i<hashSize; i++){
+         hashArray[i] = NULL;
+      }
+      for (i=0; i<hashSize/2; i++){
+         insert_item(oldArray[i]);
+      }
+      free(oldArray);
+      insert_item(item);
    }
-	
-   hashArray[hashIndex] = item;
 }
 
 int ext_mpi_hash_delete(MPI_Request *key) {
    int hashIndex = hashCode(key);
+   int steps = 0;
 
-   while(hashArray[hashIndex] != NULL) {
+   while(hashArray[hashIndex] != NULL && steps++ < hashSize) {
 	
       if(hashArray[hashIndex]->key == *key) {
          int temp = hashArray[hashIndex]->data;
@@ -71,7 +97,7 @@ int ext_mpi_hash_delete(MPI_Request *key) {
 		
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }      
 	
    return -1;
@@ -79,6 +105,7 @@ int ext_mpi_hash_delete(MPI_Request *key) {
 
 int ext_mpi_hash_init(){
   int i;
+  hashSize = SIZE;
   hashArray = (struct DataItem**) malloc(SIZE*sizeof(struct DataItem*));
   for (i=0; i<SIZE; i++){
     hashArray[i] = NULL;
@@ -94,7 +121,7 @@ int ext_mpi_hash_init(){
 
 int ext_mpi_hash_done() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < hashSize; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
diff --git a/src/mpi/hash_table_blocking.c b/src/mpi/hash_table_blocking.c
index 520eb41..c27856e 100644
--- a/src/mpi/hash_table_blocking.c
+++ b/src/mpi/hash_table_blocking.c
@@ -13,6 +13,7 @@ struct DataItem {
 };
 
 static struct DataItem** hashArray;
+static int hashSize = SIZE;
 static struct DataItem* dummyItem;
 
 static int hashCode(MPI_Comm *key) {
@@ -26,41 +27,66 @@ static int hashCode(MPI_Comm *key) {
 
 int ext_mpi_hash_search_blocking(MPI_Comm *key) {
    int hashIndex = hashCode(key);  
+   int steps = 0;
 
-   while(hashArray[hashIndex] != NULL) {
+   while(hashArray[hashIndex] != NULL && steps++ < hashSize) {
 
       if(hashArray[hashIndex]->key == *key)
          return hashArray[hashIndex]->data;
 
       ++hashIndex;
 
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }        
 
    return -1;
 }
 
+static int insert_item(struct DataItem *item) {
+   int hashIndex = hashCode(&item->key);
+   int steps = 0;
+
+   while(hashArray[hashIndex] != NULL && hashArray[hashIndex] != dummyItem) {
+      if(++steps >= hashSize)
+         return -1;
+      ++hashIndex;
+		
+      hashIndex %= hashSize;
+   }
+	
+   hashArray[hashIndex] = item;
+   return 0;
+}
+
 void ext_mpi_hash_insert_blocking(MPI_Comm *key, int data) {
 
    struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem));
+   struct DataItem **oldArray;
+   int i;
    item->data = data;  
    item->key = *key;
 
-   int hashIndex = hashCode(key);
-
-   while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_COMM_NULL) {
-      ++hashIndex;
-		
-      hashIndex %= SIZE;
+   if(insert_item(item) < 0) {
+      // the table is full
+      oldArray = hashArray;
+      hashSize *= 2;
+      hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+      for (i=0; i<hashSize; i++){
+         hashArray[i] = NULL;
+      }
+      for (i=0; i<hashSize/2; i++){
+         insert_item(oldArray[i]);
+      }
+      free(oldArray);
+      insert_item(item);
    }
-	
-   hashArray[hashIndex] = item;
 }
 
 int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
    int hashIndex = hashCode(key);
+   int steps = 0;
 
-   while(hashArray[hashIndex] != NULL) {
+   while(hashArray[hashIndex] != NULL && steps++ < hashSize) {
 	
       if(hashArray[hashIndex]->key == *key) {
          int temp = hashArray[hashIndex]->data;
@@ -71,7 +97,7 @@ int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
 		
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }      
 	
    return -1;
@@ -79,6 +105,7 @@ int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
 
 int ext_mpi_hash_init_blocking(){
   int i;
+  hashSize = SIZE;
   hashArray = (struct DataItem**) malloc(SIZE*sizeof(struct DataItem*));
   for (i=0; i<SIZE; i++){
     hashArray[i] = NULL;
@@ -94,7 +121,7 @@ int ext_mpi_hash_init_blocking(){
 
 int ext_mpi_hash_done_blocking() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < hashSize; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
-- 
2.43.0


From 14d00d70293282bc4f3d6eecbe670774d940cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:00 +0000
Subject: [PATCH 23/33] fix: MPI_Test of a reduction with bit_reproducible=0
 was not implemented

---
 src/mpi/ext_mpi_native_exec.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 134908e..c8ac8e3 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -212,7 +212,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
   char instruction, instruction2; //, *r_start, *r_temp, *ipl;
   void *p1, *p2, *p3;
   //  char *rlocmem=NULL;
-  int i1, i2; //, n_r, s_r, i;
+  int i1, i2, i, flag; //, n_r, s_r;
   struct header_byte_code *header;
 #ifdef NCCL_ENABLED
   static int initialised = 0;
@@ -318,17 +318,15 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
         p3 = code_get_pointer(&ip);
         exec_waitany(i1, i2, p3, &ip);
       } else {
-        printf("not implemented");
-        exit(2);
         *ip_exec = ip - 1;
         i1 = code_get_int(&ip);
-        p1 = code_get_pointer(&ip);
-        PMPI_Testall(i1, (MPI_Request *)p1, &i2, MPI_STATUSES_IGNORE);
-        if (!i2) {
-          return 0;
-        } else {
-          PMPI_Waitall(i1, (MPI_Request *)p1, MPI_STATUSES_IGNORE);
+        i2 = code_get_int(&ip);
+        p3 = code_get_pointer(&ip);
+        for (i = 0; i < i1; i++) {
+          PMPI_Request_get_status(((MPI_Request *)p3)[i], &flag, MPI_STATUS_IGNORE);
+          if (!flag) return 0;
         }
+        exec_waitany(i1, i2, p3, &ip);
       }
       break;
     case OPCODE_SOCKETBARRIER:
-- 
2.43.0


From b690d11f7c4911787e7d9025af5744018fefbfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:19 +0000
Subject: [PATCH 24/33] fix: reduce and gather must not communicate through the
 receive buffers of the other ranks

---
 src/mpi/ext_mpi_native.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 291ed5b..c272f49 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -860,7 +860,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && num_sockets_per_node == 1) {
+  if (root == -1 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && num_sockets_per_node == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1114,7 +1114,7 @@ int EXT_MPI_Gatherv_init_native(
 #ifdef GPU_ENABLED
   }
 #endif
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
     if (ext_mpi_generate_use_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 81436b4a78daa60acfd1df64f6d3849f15b443fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:47 +0000
Subject: [PATCH 25/33] fix: gather with several steps must not swap its
 buffers in the copyin

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index c272f49..93beda5 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1137,7 +1137,7 @@ int EXT_MPI_Gatherv_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (!not_recursive && root < 0 && my_cores_per_node_row * my_cores_per_node_column == 1){
     if (ext_mpi_generate_swap_copyin(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 1844f05668fd7282d3b82daf037567002d178e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 26/33] fix: tasks of a node have to distribute the ports along
 unpermuted ranks

---
 src/core/raw_code_tasks_node.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/raw_code_tasks_node.c b/src/core/raw_code_tasks_node.c
index 20b4e36..dcf34da 100644
--- a/src/core/raw_code_tasks_node.c
+++ b/src/core/raw_code_tasks_node.c
@@ -41,6 +41,10 @@ int ext_mpi_generate_raw_code_tasks_node(char *buffer_in, char *buffer_out) {
   for (i = 0; i < msizes_max; i++) {
     rank_back_perm[rank_perm[i]] = i;
   }
+  // the ports count distances of unpermuted ranks
+  int *rank_swap = rank_perm;
+  rank_perm = rank_back_perm;
+  rank_back_perm = rank_swap;
   node_size = node_row_size * node_column_size;
   nodes_recv = (int *)malloc(sizeof(int) * num_nodes);
   if (!nodes_recv)
-- 
2.43.0


From 940585ff0cbe014ed076203c0dcdd08191d756d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:49 +0000
Subject: [PATCH 27/33] fix: recursive reduce_scatter with different counts
 must not use the send buffer directly

---
 src/mpi/ext_mpi_native.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 93beda5..be038e2 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1625,6 +1625,12 @@ int EXT_MPI_Reduce_scatter_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
+  // different sizes permute the ranks, the blocks are then not in the order of the user buffers
+  for (i = 1; i < my_mpi_size_row; i++) {
+    if (recvcounts[i] != recvcounts[0]) {
+      not_recursive = 1;
+    }
+  }
   if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
-- 
2.43.0


From b5ef34e4e7fd53ad2cbfa43ea1fcecc8a74a49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:04 +0000
Subject: [PATCH 28/33] fix: in place allreduce and allgatherv with different
 counts must not use the user buffers for intermediate results

---
 src/mpi/ext_mpi_native.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index be038e2..a7a67e6 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -860,7 +860,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root == -1 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && num_sockets_per_node == 1) {
+  if (root == -1 && sendbuf != recvbuf && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && num_sockets_per_node == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1114,6 +1114,12 @@ int EXT_MPI_Gatherv_init_native(
 #ifdef GPU_ENABLED
   }
 #endif
+  // different sizes permute the ranks, the blocks are then not in the order of the user buffers
+  for (i = 1; i < my_mpi_size_row; i++) {
+    if (recvcounts[i] != recvcounts[0]) {
+      not_recursive = 1;
+    }
+  }
   if (root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
     if (ext_mpi_generate_use_recvbuf(buffer2, buffer1) < 0)
       goto error;
-- 
2.43.0


From 572055c1726f8869e3d1646b2f55a85e1131b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 29/33] fix: the ports of the minimum computation are those of
 an allreduce, do not use them for the other collectives

---
 src/mpi/num_ports_factors.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index b6ad503..e8bb02d 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -111,13 +111,14 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   int comm_rank_row, comm_size_row, factors_max_max = -1, group_size, **factors, *factors_max, *primes, i, j;
   PMPI_Comm_rank(comm_row, &comm_rank_row);
   PMPI_Comm_size(comm_row, &comm_size_row);
-  (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
-  (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
+  // the minimum computation needs two groups of ceil(log2(nodes)) ports
+  (*num_ports) = (int*)malloc((comm_size_row + 3)*sizeof(int));
+  (*groups) = (int*)malloc((comm_size_row + 3)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
     (*num_ports)[0] = (*groups)[0] = -1;
     (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
-  } else if (!minimum_computation) {
+  } else if (!minimum_computation || collective_type) {
     if (comm_rank_row == 0) {
       factors_max_max = ext_mpi_heuristic_recursive_non_factors(comm_size_row/my_cores_per_node_row, collective_type, &factors_max, &factors, &primes);
       factors_max_max = ext_mpi_heuristic_cancel_factors(factors_max_max, factors_max, factors, primes);
@@ -150,7 +151,7 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
       free(factors_max);
     }
     // FIXME comm_column
-  } else if (minimum_computation){
+  } else {
     //allreduce case for minimum computation
     if (comm_size_row/my_cores_per_node_row==1){
       //if only one node
-- 
2.43.0


From 0b0fece12b466f19d345783bec046dffc664389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:25 +0000
Subject: [PATCH 30/33] fix: MPI_Startall has to start the persistent
 collectives, it was not intercepted

---
 src/mpi/ext_mpi_interface.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index b1e93d0..1873fad 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -136,6 +136,17 @@ int MPI_Start(MPI_Request *request){
   }
 }
 
+int MPI_Startall(int count, MPI_Request array_of_requests[]){
+  int ret, i;
+  for (i=0; i<count; i++){
+    ret = MPI_Start(&array_of_requests[i]);
+    if (ret != MPI_SUCCESS){
+      return ret;
+    }
+  }
+  return MPI_SUCCESS;
+}
+
 int MPI_Wait(MPI_Request *request, MPI_Status *status){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
-- 
2.43.0


From dfca41e58a688679238911311a28a4f4ee943a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:25 +0000
Subject: [PATCH 31/33] fix: MPI_INTEGER8 is MPI_LONG and not the pair type
 MPI_LONG_INT in the Fortran interface

---
 src/fortran/ext_mpi_f.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fortran/ext_mpi_f.c b/src/fortran/ext_mpi_f.c
index ea606ee..470cba4 100644
--- a/src/fortran/ext_mpi_f.c
+++ b/src/fortran/ext_mpi_f.c
@@ -30,7 +30,7 @@ void mpi_allreduce_init_f08_(const void *sendbuf, void *recvbuf, int *count, MPI
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
@@ -64,7 +64,7 @@ void mpi_allreduce_f08_(const void *sendbuf, void *recvbuf, int *count, MPI_Data
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
-- 
2.43.0


From 2f0d1cc4c399a855e57904d905e19a067f136023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:38 +0000
Subject: [PATCH 32/33] fix: EXT_MPI_Progress without any request must not
 access the missing tables

---
 src/mpi/ext_mpi_native.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index a7a67e6..019e6db 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -267,6 +267,9 @@ int EXT_MPI_Test_native(int handle) {
 
 int EXT_MPI_Progress_native() {
   int ret = 0, handle;
+  if (!execution_pointer) {
+    return 0;
+  }
   for (handle = 0; handle < handle_code_max; handle += 2) {
     if (execution_pointer[handle]) {
       ret += ext_mpi_exec_native(comm_code[handle], &execution_pointer[handle],
-- 
2.43.0


From 9ffc6cba980c9f1cf7b6cf7ef926f62577f4faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:16 +0000
Subject: [PATCH 33/33] fix: counts, displacements and type of gather and
 scatter are significant at the root only

---
 src/mpi/ext_mpi_interface.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 1873fad..e2b89e8 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -99,21 +99,50 @@ int MPI_Reduce_init(const void *sendbuf, void *recvbuf, int count, MPI_Datatype
   return ret;
 }
 
+/* counts and displacements of gatherv and scatterv are significant at the root only, all ranks need them for planning */
+static int *counts_displs_of_root(const int *counts, const int *displs, int root, MPI_Comm comm){
+  int *ret, mpi_size, mpi_rank, i;
+  MPI_Comm_size(comm, &mpi_size);
+  MPI_Comm_rank(comm, &mpi_rank);
+  ret = (int *)malloc(2 * mpi_size * sizeof(int));
+  if (ret == NULL) return NULL;
+  if (mpi_rank == root){
+    for (i=0; i<mpi_size; i++){
+      ret[i] = counts[i];
+      ret[mpi_size + i] = displs[i];
+    }
+  }
+  MPI_Bcast(ret, 2 * mpi_size, MPI_INT, root, comm);
+  return ret;
+}
+
 int MPI_Gatherv_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, const int *recvcounts, const int *displs, MPI_Datatype recvtype, int root, MPI_Comm comm, MPI_Info info, MPI_Request *request){
-  int handle, ret;
+  int handle, ret, mpi_size, mpi_rank, *counts;
+  MPI_Comm_size(comm, &mpi_size);
+  MPI_Comm_rank(comm, &mpi_rank);
+  if (mpi_rank != root) recvtype = sendtype;
+  counts = counts_displs_of_root(recvcounts, displs, root, comm);
+  if (counts == NULL) return MPI_ERR_INTERN;
   MPI_Recv_init(NULL, 0, recvtype, 0, 0, comm, request);
-  if (!(ret=EXT_MPI_Gatherv_init(sendbuf, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, root, comm, info, &handle))){
+  if (!(ret=EXT_MPI_Gatherv_init(sendbuf, sendcount, sendtype, recvbuf, counts, counts + mpi_size, recvtype, root, comm, info, &handle))){
     ext_mpi_hash_insert(request, handle);
   }
+  free(counts);
   return ret;
 }
 
 int MPI_Scatterv_init(const void *sendbuf, const int *sendcounts, const int *displs, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, int root, MPI_Comm comm, MPI_Info info, MPI_Request *request){
-  int handle, ret;
+  int handle, ret, mpi_size, mpi_rank, *counts;
+  MPI_Comm_size(comm, &mpi_size);
+  MPI_Comm_rank(comm, &mpi_rank);
+  if (mpi_rank != root) sendtype = recvtype;
+  counts = counts_displs_of_root(sendcounts, displs, root, comm);
+  if (counts == NULL) return MPI_ERR_INTERN;
   MPI_Recv_init(NULL, 0, sendtype, 0, 0, comm, request);
-  if (!(ret=EXT_MPI_Scatterv_init(sendbuf, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype, root, comm, info, &handle))){
+  if (!(ret=EXT_MPI_Scatterv_init(sendbuf, counts, counts + mpi_size, sendtype, recvbuf, recvcount, recvtype, root, comm, info, &handle))){
     ext_mpi_hash_insert(request, handle);
   }
+  free(counts);
   return ret;
 }
 
-- 
2.43.0

