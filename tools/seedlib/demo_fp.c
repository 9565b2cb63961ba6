/* demo_fp.x count starts: sums of doubles of very different magnitude; every start uses the same data and different delays, every result must be the same bits. */
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int argc, char **argv) {
  int n, r, i, k, bad = 0, count, starts; MPI_Request q;
  MPI_Init(&argc, &argv);
  alarm(80);
  count = atoi(argv[1]); starts = atoi(argv[2]);
  MPI_Comm_size(MPI_COMM_WORLD, &n); MPI_Comm_rank(MPI_COMM_WORLD, &r);
  double *s = malloc(count * 8), *v = malloc(count * 8), *v0 = malloc(count * 8);
  for (i = 0; i < count; i++) s[i] = (r % 2 ? -1. : 1.) * (1. + (i * 7 + r * 13) % 11 / 7.) * ((r + i) % 3 == 0 ? 1e16 : (r + i) % 3 == 1 ? 1. : 1e-3);
  MPI_Allreduce_init(s, v, count, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD, MPI_INFO_NULL, &q);
  for (k = 0; k < starts; k++) {
    MPI_Barrier(MPI_COMM_WORLD);
    usleep((k / (1 << (2 * r)) % 4) * 3000);
    MPI_Start(&q); MPI_Wait(&q, MPI_STATUS_IGNORE);
    if (!k) memcpy(v0, v, count * 8);
    if (memcmp(v0, v, count * 8) && !bad++) fprintf(stderr, "rank %d: start %d: the sum changed although no input did\n", r, k);
  }
  PMPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  if (!r) printf("%s\n", bad ? "WRONG" : "OK");
  MPI_Request_free(&q);
  MPI_Finalize();
  return bad != 0;
}
