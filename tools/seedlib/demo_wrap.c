/* demo_wrap.x coll test: a persistent collective whose barrier counters are close to the largest int, as after some 10^9 starts.
   Every process moves its own counters and its own flag by the same amount, which changes nothing else. */
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <limits.h>
#include "core/byte_code.h"
/* the first execution of every plan of a collective, on all processes at the same time */
static char *seen[8]; static int nseen, armed, d; static unsigned base = INT_MAX;
int __real_ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait);
int __wrap_ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
  int i;
  for (i = 0; i < nseen && seen[i] != ip; i++);
  if (armed && i == nseen) {
    struct header_byte_code *h = (struct header_byte_code *)ip;
    int D = base + d;
    seen[nseen++] = ip;
    PMPI_Barrier(MPI_COMM_WORLD);
    h->barrier_counter_socket += D; h->barrier_counter_node += D;
    if (h->barrier_shmem_socket) *(int *)(h->barrier_shmem_socket + h->barrier_shmem_size + 64 * h->socket_rank) += D;
    if (h->barrier_shmem_node) *(int *)(h->barrier_shmem_node[0] + 64 * h->socket_rank) += D;
    PMPI_Barrier(MPI_COMM_WORLD);
  }
  return __real_ext_mpi_exec_native(ip, ip_exec, active_wait);
}
int main(int argc, char **argv) {
  int n, r, k, j, bad = 0, test; MPI_Request q; long s[8], v[64];
  
  MPI_Init(&argc, &argv);
  alarm(60);
  test = atoi(argv[2]);
  if (argc > 3) base = strtoul(argv[3], NULL, 0);
  MPI_Comm_size(MPI_COMM_WORLD, &n); MPI_Comm_rank(MPI_COMM_WORLD, &r);
  for (d = -5; d < 2; d += 3) {
    if (!strcmp(argv[1], "allreduce")) MPI_Allreduce_init(s, v, 8, MPI_LONG, MPI_SUM, MPI_COMM_WORLD, MPI_INFO_NULL, &q);
    else if (!strcmp(argv[1], "bcast")) MPI_Bcast_init(v, 8, MPI_LONG, 0, MPI_COMM_WORLD, MPI_INFO_NULL, &q);
    else MPI_Allgather_init(s, 8, MPI_LONG, v, 8, MPI_LONG, MPI_COMM_WORLD, MPI_INFO_NULL, &q);
    nseen = 0; armed = 1;
    PMPI_Barrier(MPI_COMM_WORLD);
    for (k = 0; k < 12; k++) {
      for (j = 0; j < 8; j++) { s[j] = r * 10 + j + k; v[j] = r ? -1 : j + k; }
      if (r == k % n) usleep(3000);
      MPI_Start(&q);
      if (test) { int f = 0; while (!f) { MPI_Test(&q, &f, MPI_STATUS_IGNORE); if (!f) usleep(10); } } else MPI_Wait(&q, MPI_STATUS_IGNORE);
      for (j = 0; j < 8; j++) {
        long e = !strcmp(argv[1], "allreduce") ? 5L * n * (n - 1) + n * (j + k) : j + k;
        if (v[j] != e && !bad++) fprintf(stderr, "rank %d start %d: expected %ld, got %ld\n", r, k, e, v[j]);
      }
    }
    armed = 0;
    MPI_Request_free(&q);
  }
  PMPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  if (!r) printf("%s\n", bad ? "WRONG" : "OK");
  MPI_Finalize();
  return bad != 0;
}
