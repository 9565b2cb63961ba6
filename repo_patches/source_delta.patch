From f5e69527d3379fc1bcd41dc4eafc5bc96ed38592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 01/27] fix: write the group list terminator through the list,
 not through an uninitialised element (single-node default)

---
 src/mpi/num_ports_factors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 0ac6d02..b6ad503 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -114,8 +114,8 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
-    (*num_ports)[0] = (*groups[0]) = -1;
-    (*num_ports)[1] = (*groups[1]) = 0;
+    (*num_ports)[0] = (*groups)[0] = -1;
+    (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
   } else if (!minimum_computation) {
     if (comm_rank_row == 0) {
-- 
2.43.0


From df1df77bcaf93eca24fb7248fbcfda81310b4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:15 +0000
Subject: [PATCH 02/27] fix: scatter: negate the ports when reverting their
 order, as reduce_scatter does

---
 src/mpi/ext_mpi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index a4de601..f62d52e 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -567,9 +567,10 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   for (i = 0; num_ports[i]; i++);
   for (j = 0; j < i / 2; j++) {
     k = num_ports[j];
-    num_ports[j] = num_ports[i - 1 - j];
-    num_ports[i - 1 - j] = k;
+    num_ports[j] = -num_ports[i - 1 - j];
+    num_ports[i - 1 - j] = -k;
   }
+  if (i % 2) num_ports[i / 2] = -num_ports[i / 2];
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
-- 
2.43.0


From b9d967d8965e794ac626ab954478e40f8108a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:15 +0000
Subject: [PATCH 03/27] fix: gather on a single node: use the allgather
 direction of the ports, as allgather does

---
 src/mpi/ext_mpi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index f62d52e..25144dd 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -344,6 +344,7 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   for (i = 0; i < comm_size_row; i++) {
     rcount += recvcounts[i];
   }
+  if (groups[0] == -1 && groups[1] == 0) num_ports[0] = 1;
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
-- 
2.43.0


From 2d94af4f7200ce7e577a1b06bb6b9ae0c993c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:15 +0000
Subject: [PATCH 04/27] fix: reduce_copyout: use the fast buffer layout only
 where reduce_copyin produces it

---
 src/core/reduce_copyout.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/reduce_copyout.c b/src/core/reduce_copyout.c
index 446a80f..7fe6d54 100644
--- a/src/core/reduce_copyout.c
+++ b/src/core/reduce_copyout.c
@@ -54,7 +54,8 @@ int ext_mpi_generate_reduce_copyout(char *buffer_in, char *buffer_out) {
   counts = parameters->counts;
   iocounts_max = parameters->iocounts_max;
   iocounts = parameters->iocounts;
-  if (!parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
+  if (parameters->collective_type != collective_type_allgatherv && parameters->root > -10 &&
+      !parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
     fast = 1;
   }
   switch (parameters->data_type) {
-- 
2.43.0


From eb29ab48bdb6e7a997498418d51b30ff4999135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:15 +0000
Subject: [PATCH 05/27] fix: reduce: adapt the ports when the measurement
 splits a single node into sockets

---
 src/mpi/ext_mpi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 25144dd..8d79e5d 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -774,6 +774,9 @@ int ext_mpi_reduce_init_general(const void *sendbuf, void *recvbuf, int count,
           my_cores_per_node, &copyin_method, &copyin_factors, &num_sockets_per_node);
     }
   }
+  if (num_sockets_per_node_ == 1) {
+    ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
+  }
   if (ext_mpi_verbose) {
     if (ext_mpi_is_rank_zero(comm, MPI_COMM_NULL)){
       printf("# EXT_MPI MPI tasks per socket: %d\n", my_cores_per_node);
-- 
2.43.0


From 411224eb71a9a89f3c48ef782201c18bda5b9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:32 +0000
Subject: [PATCH 06/27] fix: rooted collectives: compare the socket with the
 socket of the root, not with its rank

---
 src/mpi/backward_interpreter.c | 2 +-
 src/mpi/forward_interpreter.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/backward_interpreter.c b/src/mpi/backward_interpreter.c
index 57ee9cf..f675184 100644
--- a/src/mpi/backward_interpreter.c
+++ b/src/mpi/backward_interpreter.c
@@ -54,7 +54,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   for (i = 0; i < data.blocks[data.num_blocks - 1].num_lines; i++) {
     for (j = 0; j < data.blocks[data.num_blocks - 1].lines[i].sendto_max; j++) {
       if ((data.blocks[data.num_blocks - 1].lines[i].sendto_node[j] == -1) &&
-          (parameters->socket == parameters->root)) {
+          (parameters->socket == parameters->root / parameters->socket_row_size)) {
         values[data.num_blocks - 1][i] = 2;
       }
     }
diff --git a/src/mpi/forward_interpreter.c b/src/mpi/forward_interpreter.c
index 7a24999..494c376 100644
--- a/src/mpi/forward_interpreter.c
+++ b/src/mpi/forward_interpreter.c
@@ -51,9 +51,9 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
       values[i][j] = 0;
     }
   }
-  k = parameters->socket == parameters->root;
+  k = parameters->socket == parameters->root / parameters->socket_row_size;
   if (parameters->root <= -10) {
-    k = parameters->socket == (-10 - parameters->root);
+    k = parameters->socket == (-10 - parameters->root) / parameters->socket_row_size;
   }
   for (i = 0; i < data.blocks[0].num_lines; i++) {
     for (j = 0; j < data.blocks[0].lines[i].recvfrom_max; j++) {
-- 
2.43.0


From 7a42bcaa7a60582f795bc4d376dba4f87ad2946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:56 +0000
Subject: [PATCH 07/27] fix: reduce_scatter with one task per socket: use the
 back-permuted algorithm

---
 src/mpi/ext_mpi_native.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index b520ed9..51f8364 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1555,6 +1555,10 @@ int EXT_MPI_Reduce_scatter_init_native(
         goto error;
     }
 #endif
+  } else {
+    buffer_temp = buffer2;
+    buffer2 = buffer1;
+    buffer1 = buffer_temp;
   }
   if (my_mpi_size_row / my_cores_per_node_row > 1) {
     if (ext_mpi_generate_reduce_copyin(buffer1, buffer2) < 0)
-- 
2.43.0


From 3486b666089d7f34ad5deaf40472b3aa9c631361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:56 +0000
Subject: [PATCH 08/27] fix: scatterv: choose the ports from the maximum of the
 receive counts, as gatherv does, so that all ranks agree

---
 src/mpi/ext_mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 8d79e5d..319c5cb 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -554,7 +554,7 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
   if (!groups)
     goto error;
-  rcount = recvcount;
+  PMPI_Allreduce(&recvcount, &rcount, 1, MPI_INT, MPI_MAX, comm);
   minimum_computation = ext_mpi_get_param(ext_mpi_minimum_computation, comm, info, "ext_mpi_minimum_computation", 0);
   group_size = ext_mpi_num_ports_factors_env(comm, ext_mpi_fixed_factors_ports, ext_mpi_fixed_factors_groups, num_ports, groups);
   if (group_size < 0) {
-- 
2.43.0


From eb157f7d34bab336c5f38a637efb81ff22dd0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 09/27] fix: scatterv: copy the send buffer in the order of the
 lines of the (permuted) algorithm

---
 src/core/reduce_copyin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 68e1f7b..dc856dc 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -493,8 +493,8 @@ int ext_mpi_generate_reduce_copyin(char *buffer_in, char *buffer_out) {
                parameters->socket_rank ==
            -10 - parameters->root)) {
         add = 0;
-        for (i = 0; i < num_nodes; i++) {
-          j = (num_nodes + i + parameters->socket) % num_nodes;
+        for (i = 0; i < data.blocks[0].num_lines; i++) {
+          j = data.blocks[0].lines[i].frac;
           data_memcpy_reduce.type = ememcpy;
           data_memcpy_reduce.buffer_type1 = eshmemo;
           data_memcpy_reduce.buffer_number1 = 0;
-- 
2.43.0


From dc7af18d41b79326b505c11103bc43625677e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 10/27] fix: completion tests: return the barrier state the
 right way round and advance without entering the blocking barrier

---
 src/mpi/ext_mpi_native_exec.c | 58 +++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 6ea827e..549d0a3 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -33,16 +33,20 @@ static void node_barrier(char **shmem, int *barrier_count, int socket_rank, int
   }
 }
 
-static int node_barrier_test(char **shmem, int barrier_count, int socket_rank, int num_sockets_per_node) {
-  int step;
+static int node_barrier_test(char **shmem, int *barrier_count, int socket_rank, int num_sockets_per_node) {
+  volatile int *entry = &((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))];
+  int step, count = *barrier_count;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
-    ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
-    if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
-      return 1;
+    if ((unsigned int)(*entry - count) > INT_MAX) {
+      *entry = count;
+    }
+    if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - count) > INT_MAX) {
+      return 0;
     }
-    barrier_count++;
+    count++;
   }
-  return 0;
+  *barrier_count = count;
+  return 1;
 }
 
 static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int num_cores) {
@@ -55,16 +59,20 @@ static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int
   }
 }
 
-static int socket_barrier_test(char *shmem, int barrier_count, int socket_rank, int num_cores) {
-  int step;
+static int socket_barrier_test(char *shmem, int *barrier_count, int socket_rank, int num_cores) {
+  volatile int *entry = &((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))];
+  int step, count = *barrier_count;
   for (step = 1; step < num_cores; step <<= 1) {
-    ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
-    if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
-      return 1;
+    if ((unsigned int)(*entry - count) > INT_MAX) {
+      *entry = count;
+    }
+    if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - count) > INT_MAX) {
+      return 0;
     }
-    barrier_count++;
+    count++;
   }
-  return 0;
+  *barrier_count = count;
+  return 1;
 }
 
 static void socket_barrier_atomic_set(char *shmem, int barrier_count, int entry) {
@@ -77,8 +85,12 @@ static void socket_barrier_atomic_wait(char *shmem, int *barrier_count, int entr
   (*barrier_count)++;
 }
 
-static int socket_barrier_atomic_test(char *shmem, int barrier_count, int entry) {
-  return (unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX;
+static int socket_barrier_atomic_test(char *shmem, int *barrier_count, int entry) {
+  if ((unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX) {
+    return 0;
+  }
+  (*barrier_count)++;
+  return 1;
 }
 
 static void reduce_waitany(void **pointers_to, void **pointers_from, int *sizes, int num_red, int op_reduce){
@@ -331,12 +343,9 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_cores);
       } else {
         *ip_exec = ip - 1;
-        if (!socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
+        if (!socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket,
                                  header->socket_rank, header->num_cores)) {
           return 0;
-        } else {
-          socket_barrier(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket,
-                         header->socket_rank, header->num_cores);
         }
       }
       break;
@@ -346,12 +355,9 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_sockets_per_node);
       } else {
         *ip_exec = ip - 1;
-        if (!node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
+        if (!node_barrier_test(header->barrier_shmem_node, &header->barrier_counter_node,
                                  header->socket_rank, header->num_sockets_per_node)) {
           return 0;
-        } else {
-          node_barrier(header->barrier_shmem_node, &header->barrier_counter_node,
-                         header->socket_rank, header->num_sockets_per_node);
         }
       }
       break;
@@ -364,10 +370,8 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
         socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
       } else {
         *ip_exec = ip - 1 - sizeof(int);
-        if (!socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket, i1)) {
+        if (!socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1)) {
           return 0;
-        } else {
-          socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
         }
       }
       break;
-- 
2.43.0


From 7972f986ba6b32b3a81618c658daadb18dd4afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:53 +0000
Subject: [PATCH 11/27] fix: MPI_Testall: clear the flag and not the pointer to
 it

---
 src/mpi/ext_mpi_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 3195e2e..dd597ca 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -232,7 +232,7 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
       if (ret != MPI_SUCCESS){
         return ret;
       }
-      if (!lflag) flag=0;
+      if (!lflag) *flag=0;
     }
   }else{
     *flag = 1;
-- 
2.43.0


From a51556453383e6a67ded796c0c7d5ad9bc4cc284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:53 +0000
Subject: [PATCH 12/27] fix: EXT_MPI_Progress: do nothing before the first
 handle exists

---
 src/mpi/ext_mpi_native.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 51f8364..0c858fd 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -257,6 +257,7 @@ int EXT_MPI_Test_native(int handle) {
 
 int EXT_MPI_Progress_native() {
   int ret = 0, handle;
+  if (!execution_pointer) return 0;
   for (handle = 0; handle < handle_code_max; handle += 2) {
     if (execution_pointer[handle]) {
       ret += ext_mpi_exec_native(comm_code[handle], &execution_pointer[handle],
-- 
2.43.0


From bda190710159f1f63d93ff4d686af421b9556618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:42 +0000
Subject: [PATCH 13/27] fix: MPI_Startall: start the persistent collectives
 among the requests

---
 src/mpi/ext_mpi_interface.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index dd597ca..7e86359 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -135,6 +135,17 @@ int MPI_Start(MPI_Request *request){
   }
 }
 
+int MPI_Startall(int count, MPI_Request array_of_requests[]){
+  int ret, i;
+  for (i=0; i<count; i++){
+    ret = MPI_Start(&array_of_requests[i]);
+    if (ret != MPI_SUCCESS){
+      return ret;
+    }
+  }
+  return MPI_SUCCESS;
+}
+
 int MPI_Wait(MPI_Request *request, MPI_Status *status){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
-- 
2.43.0


From b414fc38de757b33c6a3ad7172d6dcd58f94c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:02 +0000
Subject: [PATCH 14/27] fix: Waitany/Waitsome/Testany/Testsome: ignore inactive
 requests and report what really completed

---
 include/mpi/ext_mpi.h        |  1 +
 include/mpi/ext_mpi_native.h |  1 +
 src/mpi/ext_mpi.c            |  8 +++++
 src/mpi/ext_mpi_interface.c  | 66 ++++++++++++++++++++++++++++--------
 src/mpi/ext_mpi_native.c     |  4 +++
 5 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/include/mpi/ext_mpi.h b/include/mpi/ext_mpi.h
index bff1f3e..93ff229 100644
--- a/include/mpi/ext_mpi.h
+++ b/include/mpi/ext_mpi.h
@@ -85,6 +85,7 @@ int EXT_MPI_Scatterv_init(const void *sendbuf, const int *sendcounts, const int
                           int root, MPI_Comm comm, MPI_Info info, int *handle);
 int EXT_MPI_Start(int handle);
 int EXT_MPI_Test(int handle);
+int EXT_MPI_Is_active(int handle);
 int EXT_MPI_Progress();
 int EXT_MPI_Wait(int handle);
 int EXT_MPI_Done(int handle);
diff --git a/include/mpi/ext_mpi_native.h b/include/mpi/ext_mpi_native.h
index 6cf2b08..47616b4 100644
--- a/include/mpi/ext_mpi_native.h
+++ b/include/mpi/ext_mpi_native.h
@@ -56,6 +56,7 @@ int EXT_MPI_Scatterv_init_native(const void *sendbuf, const int *sendcounts, con
                                  int copyin, int alt, int not_recursive, int blocking, int num_sockets_per_node, int shmem_zero, char *locmem);
 int EXT_MPI_Start_native(int handle);
 int EXT_MPI_Test_native(int handle);
+int EXT_MPI_Is_active_native(int handle);
 int EXT_MPI_Progress_native();
 int EXT_MPI_Wait_native(int handle);
 int EXT_MPI_Done_native(int handle);
diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 319c5cb..a7c49a3 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -996,6 +996,14 @@ int EXT_MPI_Test(int handle) {
   }
 }
 
+int EXT_MPI_Is_active(int handle) {
+  if (handle >= 0) {
+    return (EXT_MPI_Is_active_native(handle));
+  } else {
+    return 0;
+  }
+}
+
 int EXT_MPI_Progress() { return (EXT_MPI_Progress_native()); }
 
 int EXT_MPI_Wait(int handle) {
diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 7e86359..0cd81ab 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -189,36 +189,68 @@ int MPI_Waitall(int count, MPI_Request array_of_requests[], MPI_Status array_of_
   return MPI_SUCCESS;
 }
 
+/* tests a request; inactive requests are reported as not active, they must be ignored by Waitany and the like */
+static int test_active(MPI_Request *request, int *active, int *flag, MPI_Status *status){
+  int ret, indx, handle=ext_mpi_hash_search(request);
+  if (handle >= 0){
+    *active = EXT_MPI_Is_active(handle);
+    *flag = 0;
+    if (*active){
+      *flag = EXT_MPI_Test(handle);
+    }
+    return MPI_SUCCESS;
+  }
+  ret = PMPI_Testany(1, request, &indx, flag, status);
+  *active = !*flag || indx != MPI_UNDEFINED;
+  return ret;
+}
+
 int MPI_Waitany(int count, MPI_Request array_of_requests[], int *indx, MPI_Status *status){
-  int ret, flag, i;
+  int ret, flag, active, lactive, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Waitany(count, array_of_requests, indx, status);
   }
-  while (1){
+  do{
+    active = 0;
     for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &flag, status);
+      ret = test_active(&array_of_requests[i], &lactive, &flag, status);
       if (ret != MPI_SUCCESS){
         return ret;
       }
-      if (flag){
+      if (lactive && flag){
         *indx = i;
         return MPI_SUCCESS;
       }
+      active |= lactive;
     }
-  }
+  }while (active);
+  *indx = MPI_UNDEFINED;
   return MPI_SUCCESS;
 }
 
+static void set_outcount(int flag, int indx, int *outcount, int array_of_indices[]){
+  if (!flag){
+    *outcount = 0;
+  }else if (indx == MPI_UNDEFINED){
+    *outcount = MPI_UNDEFINED;
+  }else{
+    *outcount = 1;
+    array_of_indices[0] = indx;
+  }
+}
+
 int MPI_Waitsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
+  int ret, indx;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Waitsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
   if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Waitany(incount, array_of_requests, &array_of_indices[0], MPI_STATUS_IGNORE);
+    ret = MPI_Waitany(incount, array_of_requests, &indx, MPI_STATUS_IGNORE);
   }else{
-    return MPI_Waitany(incount, array_of_requests, &array_of_indices[0], &array_of_statuses[0]);
+    ret = MPI_Waitany(incount, array_of_requests, &indx, &array_of_statuses[0]);
   }
+  set_outcount(1, indx, outcount, array_of_indices);
+  return ret;
 }
 
 int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
@@ -259,36 +291,40 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
 }
 
 int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag, MPI_Status *status){
-  int ret, lflag, i;
+  int ret, lflag, active = 0, lactive, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testany(count, array_of_requests, indx, flag, status);
   }
   *flag = 0;
   for (i=0; i<count; i++){
-    ret = MPI_Test(&array_of_requests[i], &lflag, status);
+    ret = test_active(&array_of_requests[i], &lactive, &lflag, status);
     if (ret != MPI_SUCCESS){
       return ret;
     }
-    if (lflag){
+    if (lactive && lflag){
       *flag = 1;
       *indx = i;
       return MPI_SUCCESS;
     }
+    active |= lactive;
   }
+  *flag = !active;
+  *indx = MPI_UNDEFINED;
   return MPI_SUCCESS;
 }
 
 int MPI_Testsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
-  int flag;
+  int ret, flag, indx;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Testsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
   if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
+    ret = MPI_Testany(incount, array_of_requests, &indx, &flag, MPI_STATUS_IGNORE);
   }else{
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
+    ret = MPI_Testany(incount, array_of_requests, &indx, &flag, &array_of_statuses[0]);
   }
+  set_outcount(flag, indx, outcount, array_of_indices);
+  return ret;
 }
 
 int MPI_Allgather_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, MPI_Comm comm, MPI_Info info, MPI_Request *request){
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 0c858fd..0495e6a 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -255,6 +255,10 @@ int EXT_MPI_Test_native(int handle) {
   return (execution_pointer[handle] == NULL);
 }
 
+int EXT_MPI_Is_active_native(int handle) {
+  return (execution_pointer[handle] != NULL);
+}
+
 int EXT_MPI_Progress_native() {
   int ret = 0, handle;
   if (!execution_pointer) return 0;
-- 
2.43.0


From 394118e5fcc1019edc772ee240c5d70a0948d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 15/27] fix: hash tables: grow before the last free entry is
 used, searches did not end in a full table

---
 src/mpi/hash_table.c          | 40 +++++++++++++++++++++++++++++++----
 src/mpi/hash_table_blocking.c | 40 +++++++++++++++++++++++++++++++----
 2 files changed, 72 insertions(+), 8 deletions(-)

diff --git a/src/mpi/hash_table.c b/src/mpi/hash_table.c
index 7e132b0..739b242 100644
--- a/src/mpi/hash_table.c
+++ b/src/mpi/hash_table.c
@@ -14,6 +14,8 @@ struct DataItem {
 
 static struct DataItem** hashArray;
 static struct DataItem* dummyItem;
+static int hash_size = SIZE;
+static int hash_used = 0; /* entries different from NULL, at least one entry is always NULL */
 
 static int hashCode(MPI_Request *key) {
    unsigned char value = 0;
@@ -34,12 +36,34 @@ int ext_mpi_hash_search(MPI_Request *key) {
 
       ++hashIndex;
 
-      hashIndex %= SIZE;
+      hashIndex %= hash_size;
    }        
 
    return -1;
 }
 
+static void hash_grow(){
+   struct DataItem **old = hashArray;
+   int old_size = hash_size, hashIndex, i;
+   hash_size *= 2;
+   hash_used = 0;
+   hashArray = (struct DataItem**) malloc(hash_size*sizeof(struct DataItem*));
+   for (i=0; i<hash_size; i++){
+     hashArray[i] = NULL;
+   }
+   for (i=0; i<old_size; i++){
+     if (old[i] != NULL && old[i] != dummyItem) {
+       hashIndex = hashCode(&old[i]->key);
+       while(hashArray[hashIndex] != NULL) {
+         hashIndex = (hashIndex + 1) % hash_size;
+       }
+       hashArray[hashIndex] = old[i];
+       hash_used++;
+     }
+   }
+   free(old);
+}
+
 void ext_mpi_hash_insert(MPI_Request *key, int data) {
 
    struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem));
@@ -51,10 +75,16 @@ void ext_mpi_hash_insert(MPI_Request *key, int data) {
    while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_REQUEST_NULL) {
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hash_size;
    }
 	
+   if (hashArray[hashIndex] == NULL) {
+      hash_used++;
+   }
    hashArray[hashIndex] = item;
+   if (hash_used >= hash_size - 1) {
+      hash_grow();
+   }
 }
 
 int ext_mpi_hash_delete(MPI_Request *key) {
@@ -71,7 +101,7 @@ int ext_mpi_hash_delete(MPI_Request *key) {
 		
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hash_size;
    }      
 	
    return -1;
@@ -79,6 +109,8 @@ int ext_mpi_hash_delete(MPI_Request *key) {
 
 int ext_mpi_hash_init(){
   int i;
+  hash_size = SIZE;
+  hash_used = 0;
   hashArray = (struct DataItem**) malloc(SIZE*sizeof(struct DataItem*));
   for (i=0; i<SIZE; i++){
     hashArray[i] = NULL;
@@ -94,7 +126,7 @@ int ext_mpi_hash_init(){
 
 int ext_mpi_hash_done() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < hash_size; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
diff --git a/src/mpi/hash_table_blocking.c b/src/mpi/hash_table_blocking.c
index 520eb41..c8c5f9a 100644
--- a/src/mpi/hash_table_blocking.c
+++ b/src/mpi/hash_table_blocking.c
@@ -14,6 +14,8 @@ struct DataItem {
 
 static struct DataItem** hashArray;
 static struct DataItem* dummyItem;
+static int hash_size = SIZE;
+static int hash_used = 0; /* entries different from NULL, at least one entry is always NULL */
 
 static int hashCode(MPI_Comm *key) {
    unsigned char value = 0;
@@ -34,12 +36,34 @@ int ext_mpi_hash_search_blocking(MPI_Comm *key) {
 
       ++hashIndex;
 
-      hashIndex %= SIZE;
+      hashIndex %= hash_size;
    }        
 
    return -1;
 }
 
+static void hash_grow(){
+   struct DataItem **old = hashArray;
+   int old_size = hash_size, hashIndex, i;
+   hash_size *= 2;
+   hash_used = 0;
+   hashArray = (struct DataItem**) malloc(hash_size*sizeof(struct DataItem*));
+   for (i=0; i<hash_size; i++){
+     hashArray[i] = NULL;
+   }
+   for (i=0; i<old_size; i++){
+     if (old[i] != NULL && old[i] != dummyItem) {
+       hashIndex = hashCode(&old[i]->key);
+       while(hashArray[hashIndex] != NULL) {
+         hashIndex = (hashIndex + 1) % hash_size;
+       }
+       hashArray[hashIndex] = old[i];
+       hash_used++;
+     }
+   }
+   free(old);
+}
+
 void ext_mpi_hash_insert_blocking(MPI_Comm *key, int data) {
 
    struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem));
@@ -51,10 +75,16 @@ void ext_mpi_hash_insert_blocking(MPI_Comm *key, int data) {
    while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_COMM_NULL) {
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hash_size;
    }
 	
+   if (hashArray[hashIndex] == NULL) {
+      hash_used++;
+   }
    hashArray[hashIndex] = item;
+   if (hash_used >= hash_size - 1) {
+      hash_grow();
+   }
 }
 
 int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
@@ -71,7 +101,7 @@ int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
 		
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hash_size;
    }      
 	
    return -1;
@@ -79,6 +109,8 @@ int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
 
 int ext_mpi_hash_init_blocking(){
   int i;
+  hash_size = SIZE;
+  hash_used = 0;
   hashArray = (struct DataItem**) malloc(SIZE*sizeof(struct DataItem*));
   for (i=0; i<SIZE; i++){
     hashArray[i] = NULL;
@@ -94,7 +126,7 @@ int ext_mpi_hash_init_blocking(){
 
 int ext_mpi_hash_done_blocking() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < hash_size; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
-- 
2.43.0


From 0b241e7ae191022acea696187884538c44dad67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:30 +0000
Subject: [PATCH 16/27] fix: EXT_MPI_DEBUG: use the value and broadcast it, as
 for the other variables

---
 src/mpi/ext_mpi.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index a7c49a3..80e4107 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -74,7 +74,9 @@ static int read_env() {
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_DEBUG")) != NULL);
     if (var) {
-      if (sscanf(c, "%d", &var) == 0){
+      if (sscanf(c, "%d", &var) >= 1){
+        ext_mpi_debug = var;
+      } else {
         ext_mpi_debug = 0;
       }
       if (ext_mpi_verbose) {
@@ -82,7 +84,7 @@ static int read_env() {
       }
     }
   }
-  MPI_Bcast(&ext_mpi_verbose, 1, MPI_INT, 0, MPI_COMM_WORLD);
+  MPI_Bcast(&ext_mpi_debug, 1, MPI_INT, 0, MPI_COMM_WORLD);
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_ALTERNATING")) != NULL);
     if (var) {
-- 
2.43.0


From abf84b8a782f8289ce06d1d7f9d375d9008baaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:45 +0000
Subject: [PATCH 17/27] fix: Fortran: MPI_INTEGER8 is MPI_LONG, MPI_LONG_INT is
 the type of a pair

---
 src/fortran/ext_mpi_f.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fortran/ext_mpi_f.c b/src/fortran/ext_mpi_f.c
index ea606ee..470cba4 100644
--- a/src/fortran/ext_mpi_f.c
+++ b/src/fortran/ext_mpi_f.c
@@ -30,7 +30,7 @@ void mpi_allreduce_init_f08_(const void *sendbuf, void *recvbuf, int *count, MPI
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
@@ -64,7 +64,7 @@ void mpi_allreduce_f08_(const void *sendbuf, void *recvbuf, int *count, MPI_Data
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
-- 
2.43.0


From 545357238ce55c4217de052c0b46838aeb33e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 18/27] fix: one task per socket, several stages: keep the
 copies when ranks are permuted or the collective has a root

---
 src/mpi/ext_mpi_native.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 0495e6a..10a038b 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -901,6 +901,21 @@ int EXT_MPI_Bcast_init_native(void *buffer, int count, MPI_Datatype datatype,
       groups, copyin, copyin_factors, alt, 0, 0, not_recursive, blocking, num_sockets_per_node, shmem_zero, locmem, NULL));
 }
 
+/* The passes which remove the copies from and to the user buffers assume blocks in the order of the ranks (equal counts are
+   not permuted) and the same messages on all ranks (no root) as soon as there is more than one stage. */
+static int is_direct_buffers(const int *num_ports, const int *counts, int size, int root) {
+  int i;
+  if (num_ports[0] == 0 || num_ports[1] == 0) {
+    return 1;
+  }
+  for (i = 1; i < size; i++) {
+    if (counts[i] != counts[0]) {
+      return 0;
+    }
+  }
+  return root < 0;
+}
+
 int EXT_MPI_Gatherv_init_native(
     const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf,
     const int *recvcounts, const int *displs, MPI_Datatype recvtype, int root,
@@ -1107,7 +1122,7 @@ int EXT_MPI_Gatherv_init_native(
 #ifdef GPU_ENABLED
   }
 #endif
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && is_direct_buffers(num_ports, recvcounts, my_mpi_size_row, root)){
     if (ext_mpi_generate_use_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1130,7 +1145,7 @@ int EXT_MPI_Gatherv_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && is_direct_buffers(num_ports, recvcounts, my_mpi_size_row, root)){
     if (ext_mpi_generate_swap_copyin(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1616,7 +1631,7 @@ int EXT_MPI_Reduce_scatter_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && is_direct_buffers(num_ports, recvcounts, my_mpi_size_row, -1)) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 7bbd3aa2c20a78cbc5b8ff69f857190210b595e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:13 +0000
Subject: [PATCH 19/27] fix: raw_code_tasks_node: distribute the messages by
 the position in the algorithm (inverse of the rank permutation)

---
 src/core/raw_code_tasks_node.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/raw_code_tasks_node.c b/src/core/raw_code_tasks_node.c
index 20b4e36..92c4c12 100644
--- a/src/core/raw_code_tasks_node.c
+++ b/src/core/raw_code_tasks_node.c
@@ -41,6 +41,10 @@ int ext_mpi_generate_raw_code_tasks_node(char *buffer_in, char *buffer_out) {
   for (i = 0; i < msizes_max; i++) {
     rank_back_perm[rank_perm[i]] = i;
   }
+  // rank_perm leads from the position in the algorithm to the node, here the way from the node to the position is required
+  int *rank_perm_temp = rank_perm;
+  rank_perm = rank_back_perm;
+  rank_back_perm = rank_perm_temp;
   node_size = node_row_size * node_column_size;
   nodes_recv = (int *)malloc(sizeof(int) * num_nodes);
   if (!nodes_recv)
-- 
2.43.0


From 51cf119b366165c2c7d949f00b20f4d2f427b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:58 +0000
Subject: [PATCH 20/27] fix: reduce_copyin: method 1 with the fast buffer
 layout: address the cache lines

---
 src/core/reduce_copyin.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index dc856dc..dbce1fa 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -320,6 +320,10 @@ nparallel = 2;
     }
     offset1 = lrank * size + add_local;
     offset2 = (lrank + hsocket_size) * size + add_local;
+    if (fast) {
+      offset1 = lrank * CACHE_LINE_SIZE + OFFSET_FAST + add_local;
+      offset2 = (lrank + hsocket_size) * CACHE_LINE_SIZE + OFFSET_FAST + add_local;
+    }
     nbuffer_out += write_memcpy_reduce(esreduce, eshmemo, 0, fast, offset1, eshmemo, 0, fast, offset2, size_local, 0, buffer_out + nbuffer_out, ascii);
     nbuffer_out += local_barrier(-nparallel, nparallel, ranks, buffer_out + nbuffer_out, ascii);
   } else {
-- 
2.43.0


From 1e51dcb24b1d2dee57ec37fb55e2ad9c3d1c3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:14 +0000
Subject: [PATCH 21/27] fix: measurement of the copy in: do not use the buffers
 of the user, they keep their content and may be smaller

---
 src/mpi/cost_copyin_measurement.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mpi/cost_copyin_measurement.c b/src/mpi/cost_copyin_measurement.c
index 78d855b..ca6edff 100644
--- a/src/mpi/cost_copyin_measurement.c
+++ b/src/mpi/cost_copyin_measurement.c
@@ -1,4 +1,5 @@
 #include "cost_copyin_measurement.h"
+#include "constants.h"
 #include "ext_mpi_native.h"
 #include "prime_factors.h"
 #include "read_write.h"
@@ -158,6 +159,8 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
                                   int **copyin_factors, int *num_sockets_per_node) {
   int mpi_rank_row, mpi_size_row, i, j, k, copyin_factors_min[*my_cores_per_node_row+1], msize, copyin_method_min, num_sockets_per_node_min, num_sockets_per_node_max = 1, one_socket_only = 0;
   double time, time_min;
+  char *buffers = NULL;
+  int on_gpu = 0;
   if (*num_sockets_per_node == -1) {
     *num_sockets_per_node = -*num_sockets_per_node;
     one_socket_only = 1;
@@ -172,6 +175,17 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
     (*copyin_factors)[0] = 1;
     (*copyin_factors)[1] = 0;
   } else {
+#ifdef GPU_ENABLED
+    on_gpu = ext_mpi_gpu_is_device_pointer(recvbuf);
+#endif
+    if (!on_gpu) {
+      // the buffers of the user keep their content and may be smaller (reduce_scatter, reduce)
+      buffers = (char *)calloc(2, msize + 1);
+      if (!buffers)
+        return ERROR_MALLOC;
+      sendbuf = (sendbuf == recvbuf || sendbuf == MPI_IN_PLACE) ? buffers : buffers + msize;
+      recvbuf = buffers;
+    }
     time_min = allreduce_measurement(sendbuf, recvbuf, count, datatype, op, comm_row, *my_cores_per_node_row, comm_column, my_cores_per_node_column, num_active_ports, &copyin_method_min, copyin_factors_min, *num_sockets_per_node);
     num_sockets_per_node_min = 1;
     if (*my_cores_per_node_row == mpi_size_row && !one_socket_only) num_sockets_per_node_max = 4;
@@ -212,6 +226,7 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
       *num_sockets_per_node = num_sockets_per_node_min;
       *my_cores_per_node_row /= num_sockets_per_node_min;
     }
+    free(buffers);
   }
   return 0;
 }
-- 
2.43.0


From 90f71b96b118ac85571084cbb380466fffe1352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:26 +0000
Subject: [PATCH 22/27] fix: MPI_IN_PLACE for allgather(v), gather(v),
 scatter(v) and reduce_scatter(_block)

---
 src/mpi/ext_mpi.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 80e4107..bb4a927 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -238,13 +238,19 @@ int ext_mpi_allgatherv_init_general(const void *sendbuf, int sendcount,
   int comm_rank_row, comm_size_row, *num_ports = NULL, *groups = NULL, type_size, scount,
         alt, rcount, group_size, my_cores_per_node_row, my_cores_per_node_column, not_recursive, num_sockets_per_node, minimum_computation, i;
   char *str;
+  MPI_Comm_rank(comm, &comm_rank_row);
+  if (sendbuf == MPI_IN_PLACE) {
+    MPI_Type_size(recvtype, &type_size);
+    sendbuf = (char *)recvbuf + (size_t)displs[comm_rank_row] * type_size;
+    sendcount = recvcounts[comm_rank_row];
+    sendtype = recvtype;
+  }
   if (ext_mpi_debug) {
     i = ext_mpi_debug;
     ext_mpi_debug = 0;
     ext_mpi_allgatherv_init_debug(sendbuf, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, comm, info, handle);
     ext_mpi_debug = i;
   }
-  MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Comm_size(comm, &comm_size_row);
   num_sockets_per_node = ext_mpi_get_param(ext_mpi_num_sockets_per_node, comm, info, "ext_mpi_num_sockets_per_node", 1);
   my_cores_per_node_row = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node));
@@ -311,6 +317,12 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   int comm_size_row, *num_ports = NULL, *groups = NULL, type_size, scount,
       alt, rcount, group_size, my_cores_per_node_row, my_cores_per_node_column, not_recursive, num_sockets_per_node, minimum_computation, i;
   char *str;
+  if (sendbuf == MPI_IN_PLACE) {
+    MPI_Type_size(recvtype, &type_size);
+    sendbuf = (char *)recvbuf + (size_t)displs[root] * type_size;
+    sendcount = recvcounts[root];
+    sendtype = recvtype;
+  }
   if (ext_mpi_debug) {
     i = ext_mpi_debug;
     ext_mpi_debug = 0;
@@ -431,6 +443,9 @@ int ext_mpi_reduce_scatter_init_general(
   int comm_size_row, *num_ports = NULL, *groups = NULL, type_size, rcount, acount, not_recursive,
       alt, group_size, copyin_method = -1, *copyin_factors = NULL, num_sockets_per_node, my_cores_per_node, num_sockets_per_node_, minimum_computation, i, j, k;
   char *str;
+  if (sendbuf == MPI_IN_PLACE) {
+    sendbuf = recvbuf;
+  }
   if (ext_mpi_debug) {
     i = ext_mpi_debug;
     ext_mpi_debug = 0;
@@ -539,6 +554,12 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   int comm_size_row, *num_ports = NULL, *groups = NULL, type_size, rcount, my_cores_per_node_row, my_cores_per_node_column,
                      alt, group_size, copyin_method = -1, not_recursive, num_sockets_per_node, minimum_computation, i, j, k;
   char *str;
+  if (recvbuf == MPI_IN_PLACE) {
+    MPI_Type_size(sendtype, &type_size);
+    recvbuf = (char *)sendbuf + (size_t)displs[root] * type_size;
+    recvcount = sendcounts[root];
+    recvtype = sendtype;
+  }
   if (ext_mpi_debug) {
     i = ext_mpi_debug;
     ext_mpi_debug = 0;
-- 
2.43.0


From 0200ff603913840b72910a842c0e67a0211700ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:02 +0000
Subject: [PATCH 23/27] fix: gather(v), scatter(v): do not use arguments that
 MPI calls insignificant at a rank

---
 src/mpi/ext_mpi.c           | 40 +++++++++++++++++++++++++++++++++++--
 src/mpi/ext_mpi_interface.c |  4 ++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index bb4a927..05eab93 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -309,14 +309,40 @@ error:
   return ERROR_MALLOC;
 }
 
+/* the counts and displacements of a rooted collective are significant only at the root, the algorithm needs them everywhere */
+static int bcast_counts(const int **counts, const int **displs, int root, MPI_Comm comm, int **buffer) {
+  int comm_size, comm_rank, i;
+  MPI_Comm_size(comm, &comm_size);
+  MPI_Comm_rank(comm, &comm_rank);
+  *buffer = (int *)malloc(2 * comm_size * sizeof(int));
+  if (!*buffer)
+    return ERROR_MALLOC;
+  if (comm_rank == root) {
+    for (i = 0; i < comm_size; i++) {
+      (*buffer)[i] = (*counts)[i];
+      (*buffer)[comm_size + i] = (*displs)[i];
+    }
+  }
+  PMPI_Bcast(*buffer, 2 * comm_size, MPI_INT, root, comm);
+  *counts = *buffer;
+  *displs = *buffer + comm_size;
+  return 0;
+}
+
 int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
                                  MPI_Datatype sendtype, void *recvbuf,
                                  const int *recvcounts, const int *displs,
                                  MPI_Datatype recvtype, int root,
                                  MPI_Comm comm, MPI_Info info, int *handle) {
-  int comm_size_row, *num_ports = NULL, *groups = NULL, type_size, scount,
+  int comm_size_row, comm_rank_row, *num_ports = NULL, *groups = NULL, *counts_displs = NULL, type_size, scount,
       alt, rcount, group_size, my_cores_per_node_row, my_cores_per_node_column, not_recursive, num_sockets_per_node, minimum_computation, i;
   char *str;
+  if (bcast_counts(&recvcounts, &displs, root, comm, &counts_displs) < 0)
+    goto error;
+  MPI_Comm_rank(comm, &comm_rank_row);
+  if (comm_rank_row != root) {
+    recvtype = sendtype;
+  }
   if (sendbuf == MPI_IN_PLACE) {
     MPI_Type_size(recvtype, &type_size);
     sendbuf = (char *)recvbuf + (size_t)displs[root] * type_size;
@@ -383,10 +409,12 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
     goto error;
   free(groups);
   free(num_ports);
+  free(counts_displs);
   return 0;
 error:
   free(groups);
   free(num_ports);
+  free(counts_displs);
   return ERROR_MALLOC;
 }
 
@@ -551,9 +579,15 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
                                   int recvcount, MPI_Datatype recvtype,
                                   int root, MPI_Comm comm,
                                   MPI_Info info, int *handle) {
-  int comm_size_row, *num_ports = NULL, *groups = NULL, type_size, rcount, my_cores_per_node_row, my_cores_per_node_column,
+  int comm_size_row, comm_rank_row, *num_ports = NULL, *groups = NULL, *counts_displs = NULL, type_size, rcount, my_cores_per_node_row, my_cores_per_node_column,
                      alt, group_size, copyin_method = -1, not_recursive, num_sockets_per_node, minimum_computation, i, j, k;
   char *str;
+  if (bcast_counts(&sendcounts, &displs, root, comm, &counts_displs) < 0)
+    goto error;
+  MPI_Comm_rank(comm, &comm_rank_row);
+  if (comm_rank_row != root) {
+    sendtype = recvtype;
+  }
   if (recvbuf == MPI_IN_PLACE) {
     MPI_Type_size(sendtype, &type_size);
     recvbuf = (char *)sendbuf + (size_t)displs[root] * type_size;
@@ -619,10 +653,12 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
     goto error;
   free(groups);
   free(num_ports);
+  free(counts_displs);
   return 0;
 error:
   free(groups);
   free(num_ports);
+  free(counts_displs);
   return ERROR_MALLOC;
 }
 
diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 0cd81ab..0ac235e 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -100,7 +100,7 @@ int MPI_Reduce_init(const void *sendbuf, void *recvbuf, int count, MPI_Datatype
 
 int MPI_Gatherv_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, const int *recvcounts, const int *displs, MPI_Datatype recvtype, int root, MPI_Comm comm, MPI_Info info, MPI_Request *request){
   int handle, ret;
-  MPI_Recv_init(NULL, 0, recvtype, 0, 0, comm, request);
+  MPI_Recv_init(NULL, 0, MPI_BYTE, 0, 0, comm, request);
   if (!(ret=EXT_MPI_Gatherv_init(sendbuf, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, root, comm, info, &handle))){
     ext_mpi_hash_insert(request, handle);
   }
@@ -109,7 +109,7 @@ int MPI_Gatherv_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype,
 
 int MPI_Scatterv_init(const void *sendbuf, const int *sendcounts, const int *displs, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, int root, MPI_Comm comm, MPI_Info info, MPI_Request *request){
   int handle, ret;
-  MPI_Recv_init(NULL, 0, sendtype, 0, 0, comm, request);
+  MPI_Recv_init(NULL, 0, MPI_BYTE, 0, 0, comm, request);
   if (!(ret=EXT_MPI_Scatterv_init(sendbuf, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype, root, comm, info, &handle))){
     ext_mpi_hash_insert(request, handle);
   }
-- 
2.43.0


From e57531ee8b1b57dc6a0cd86a86d4237afae0140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 24/27] fix: reduce with several stages: do not use the receive
 buffers of ranks that are not the root

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 10a038b..fb5867f 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -853,7 +853,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && (root == -1 || num_ports[0] == 0 || num_ports[1] == 0)) { /* several stages with a root: no use of the receive buffers of the other ranks */
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 1ffc8f26ecc108d10453a948342855cfad9c7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 25/27] fix: barrier counters compare as unsigned numbers,
 signed overflow broke them at wrap-around

---
 src/mpi/ext_mpi_native_exec.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 549d0a3..0c3b717 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -27,20 +27,21 @@ static void node_barrier(char **shmem, int *barrier_count, int socket_rank, int
   int step;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
     ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = *barrier_count;
-    while ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX)
+    while ((unsigned int)((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - (unsigned int)*barrier_count > INT_MAX)
       ;
-    (*barrier_count)++;
+    *barrier_count = (unsigned int)*barrier_count + 1;
   }
 }
 
 static int node_barrier_test(char **shmem, int *barrier_count, int socket_rank, int num_sockets_per_node) {
   volatile int *entry = &((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))];
-  int step, count = *barrier_count;
+  int step;
+  unsigned int count = *barrier_count;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
-    if ((unsigned int)(*entry - count) > INT_MAX) {
+    if ((unsigned int)*entry - count > INT_MAX) {
       *entry = count;
     }
-    if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - count) > INT_MAX) {
+    if ((unsigned int)((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - count > INT_MAX) {
       return 0;
     }
     count++;
@@ -53,20 +54,21 @@ static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int
   int step;
   for (step = 1; step < num_cores; step <<= 1) {
     ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = *barrier_count;
-    while ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX)
+    while ((unsigned int)((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - (unsigned int)*barrier_count > INT_MAX)
       ;
-    (*barrier_count)++;
+    *barrier_count = (unsigned int)*barrier_count + 1;
   }
 }
 
 static int socket_barrier_test(char *shmem, int *barrier_count, int socket_rank, int num_cores) {
   volatile int *entry = &((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))];
-  int step, count = *barrier_count;
+  int step;
+  unsigned int count = *barrier_count;
   for (step = 1; step < num_cores; step <<= 1) {
-    if ((unsigned int)(*entry - count) > INT_MAX) {
+    if ((unsigned int)*entry - count > INT_MAX) {
       *entry = count;
     }
-    if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - count) > INT_MAX) {
+    if ((unsigned int)((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - count > INT_MAX) {
       return 0;
     }
     count++;
@@ -80,16 +82,16 @@ static void socket_barrier_atomic_set(char *shmem, int barrier_count, int entry)
 }
 
 static void socket_barrier_atomic_wait(char *shmem, int *barrier_count, int entry) {
-  while ((unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX)
+  while ((unsigned int)((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - (unsigned int)*barrier_count > INT_MAX)
     ;
-  (*barrier_count)++;
+  *barrier_count = (unsigned int)*barrier_count + 1;
 }
 
 static int socket_barrier_atomic_test(char *shmem, int *barrier_count, int entry) {
-  if ((unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX) {
+  if ((unsigned int)((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - (unsigned int)*barrier_count > INT_MAX) {
     return 0;
   }
-  (*barrier_count)++;
+  *barrier_count = (unsigned int)*barrier_count + 1;
   return 1;
 }
 
-- 
2.43.0


From f930adaae943a59e849809c163020bc1c93e72f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:30 +0000
Subject: [PATCH 26/27] fix: MPI_Request_get_status reported active collectives
 as complete, it was not intercepted

---
 include/mpi/ext_mpi.h        |  1 +
 include/mpi/ext_mpi_native.h |  1 +
 src/mpi/ext_mpi.c            |  8 ++++++++
 src/mpi/ext_mpi_interface.c  | 10 ++++++++++
 src/mpi/ext_mpi_native.c     | 14 +++++++++++++-
 5 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/include/mpi/ext_mpi.h b/include/mpi/ext_mpi.h
index 93ff229..20a23fe 100644
--- a/include/mpi/ext_mpi.h
+++ b/include/mpi/ext_mpi.h
@@ -85,6 +85,7 @@ int EXT_MPI_Scatterv_init(const void *sendbuf, const int *sendcounts, const int
                           int root, MPI_Comm comm, MPI_Info info, int *handle);
 int EXT_MPI_Start(int handle);
 int EXT_MPI_Test(int handle);
+int EXT_MPI_Test_keep(int handle);
 int EXT_MPI_Is_active(int handle);
 int EXT_MPI_Progress();
 int EXT_MPI_Wait(int handle);
diff --git a/include/mpi/ext_mpi_native.h b/include/mpi/ext_mpi_native.h
index 47616b4..9a1908f 100644
--- a/include/mpi/ext_mpi_native.h
+++ b/include/mpi/ext_mpi_native.h
@@ -56,6 +56,7 @@ int EXT_MPI_Scatterv_init_native(const void *sendbuf, const int *sendcounts, con
                                  int copyin, int alt, int not_recursive, int blocking, int num_sockets_per_node, int shmem_zero, char *locmem);
 int EXT_MPI_Start_native(int handle);
 int EXT_MPI_Test_native(int handle);
+int EXT_MPI_Test_keep_native(int handle);
 int EXT_MPI_Is_active_native(int handle);
 int EXT_MPI_Progress_native();
 int EXT_MPI_Wait_native(int handle);
diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 05eab93..b0163b3 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -1055,6 +1055,14 @@ int EXT_MPI_Test(int handle) {
   }
 }
 
+int EXT_MPI_Test_keep(int handle) {
+  if (handle >= 0) {
+    return (EXT_MPI_Test_keep_native(handle));
+  } else {
+    return -1;
+  }
+}
+
 int EXT_MPI_Is_active(int handle) {
   if (handle >= 0) {
     return (EXT_MPI_Is_active_native(handle));
diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 0ac235e..7189c65 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -263,6 +263,16 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
   }
 }
 
+int MPI_Request_get_status(MPI_Request request, int *flag, MPI_Status *status){
+  int handle=ext_mpi_hash_search(&request);
+  if (handle >= 0){
+    *flag=EXT_MPI_Test_keep(handle);
+    return MPI_SUCCESS;
+  }else{
+    return PMPI_Request_get_status(request, flag, status);
+  }
+}
+
 int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Status array_of_statuses[]){
   int ret, lflag, i;
   if (!is_in_request_array(count, array_of_requests)){
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index fb5867f..4c224f6 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -255,8 +255,20 @@ int EXT_MPI_Test_native(int handle) {
   return (execution_pointer[handle] == NULL);
 }
 
+/* like EXT_MPI_Test_native, but the handle stays active until a test or wait reports its completion */
+int EXT_MPI_Test_keep_native(int handle) {
+  if (!EXT_MPI_Is_active_native(handle)) {
+    return (1);
+  }
+  if (EXT_MPI_Test_native(handle)) {
+    active_wait[handle] = 4;
+    return (1);
+  }
+  return (0);
+}
+
 int EXT_MPI_Is_active_native(int handle) {
-  return (execution_pointer[handle] != NULL);
+  return (execution_pointer[handle] != NULL || active_wait[handle] == 4);
 }
 
 int EXT_MPI_Progress_native() {
-- 
2.43.0


From 84534d9284a784391a700e769f12617e840897eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:30 +0000
Subject: [PATCH 27/27] fix: MPI_Testall completed some of the requests
 although others were not complete

---
 src/mpi/ext_mpi_interface.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 7189c65..5d0a27d 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -278,24 +278,17 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testall(count, array_of_requests, flag, array_of_statuses);
   }
-  if (array_of_statuses == MPI_STATUSES_IGNORE){
-    *flag = 1;
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &lflag, MPI_STATUS_IGNORE);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-      if (!lflag) *flag=0;
-    }
-  }else{
-    *flag = 1;
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &lflag, &array_of_statuses[i]);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-      if (!lflag) *flag=0;
+  /* no request may be modified unless all of them are complete */
+  *flag = 1;
+  for (i=0; i<count; i++){
+    ret = MPI_Request_get_status(array_of_requests[i], &lflag, MPI_STATUS_IGNORE);
+    if (ret != MPI_SUCCESS){
+      return ret;
     }
+    if (!lflag) *flag = 0;
+  }
+  if (*flag){
+    return MPI_Waitall(count, array_of_requests, array_of_statuses);
   }
   return MPI_SUCCESS;
 }
-- 
2.43.0

