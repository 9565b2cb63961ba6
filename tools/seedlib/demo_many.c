/* demo_many.x first extra: FIRST collectives are created, the first one is started, EXTRA more are created, then all are completed and checked. */
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int main(int argc, char **argv) {
  int n, r, k, first, extra, bad = 0; MPI_Request q[400]; long s[400][3], v[400][3];
  MPI_Init(&argc, &argv);
  alarm(140);
  first = atoi(argv[1]); extra = atoi(argv[2]);
  MPI_Comm_size(MPI_COMM_WORLD, &n); MPI_Comm_rank(MPI_COMM_WORLD, &r);
  for (k = 0; k < first + extra; k++) {
    s[k][0] = r + k; s[k][1] = 2 * r + k; s[k][2] = 3 * r; v[k][0] = v[k][1] = v[k][2] = -1;
    if (k == first) { MPI_Start(&q[0]); }
    MPI_Allreduce_init(s[k], v[k], 3, MPI_LONG, MPI_SUM, MPI_COMM_WORLD, MPI_INFO_NULL, &q[k]);
  }
  for (k = 0; k < first + extra; k++) {
    if (k || !extra) MPI_Start(&q[k]);
    MPI_Wait(&q[k], MPI_STATUS_IGNORE);
    long t = (long)n * (n - 1) / 2;
    if (v[k][0] != t + (long)n * k || v[k][1] != 2 * t + (long)n * k || v[k][2] != 3 * t) if (!bad++) fprintf(stderr, "rank %d: collective %d is wrong: expected %ld, got %ld\n", r, k, t + (long)n * k, v[k][0]);
  }
  PMPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  if (!r) printf("%s\n", bad ? "WRONG" : "OK");
  for (k = 0; k < first + extra; k++) MPI_Request_free(&q[k]);
  MPI_Finalize();
  return bad != 0;
}
