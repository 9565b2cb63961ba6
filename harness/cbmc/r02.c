/* R02: the tables of requests / communicators are maps: real hash_table.c or hash_table_blocking.c, arbitrary keys and histories.
   PREFIX concrete entries are inserted first (PDEL of them deleted again), so that the table may be nearly full. */
#include <mpi.h>
#ifndef K
#define K 2      /* symbolic keys */
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef PREFIX
#define PREFIX 0
#define PDEL 0
#endif
#define NIN (K + 3 * STEPS)
#include "sym.h"
#ifdef BLOCKING
#define KEYT MPI_Comm
#define NULLKEY MPI_COMM_NULL
#include "hash_table_blocking.h"
#define INSERT ext_mpi_hash_insert_blocking
#define DELETE ext_mpi_hash_delete_blocking
#define SEARCH ext_mpi_hash_search_blocking
#define INIT ext_mpi_hash_init_blocking
#define DONE ext_mpi_hash_done_blocking
#else
#define KEYT MPI_Request
#define NULLKEY MPI_REQUEST_NULL
#include "hash_table.h"
#define INSERT ext_mpi_hash_insert
#define DELETE ext_mpi_hash_delete
#define SEARCH ext_mpi_hash_search
#define INIT ext_mpi_hash_init
#define DONE ext_mpi_hash_done
#endif
static KEYT key[K], pre;
static int used[K], val[K];
#define PKEY(i) (0x11000000 + ((i) % 256) + 0x100 * ((i) / 256))
int harness(void) {
  int i, j, s, p = K;
  SYMBOLIC(IN);
  INIT();
  for (i = 0; i < PREFIX; i++) { pre = PKEY(i); INSERT(&pre, 1000 + i); }
  for (i = 0; i < PDEL; i++) { pre = PKEY(i); CHECK(DELETE(&pre) == 1000 + i, "deletion gives the value"); }
  for (i = 0; i < K; i++) {
    key[i] = IN[i];
#ifdef NARROW
    ASSUME((key[i] & 0xffff0000) == 0x22000000);
#endif
    ASSUME(key[i] != NULLKEY && (key[i] >> 24) != 0x11);
    for (j = 0; j < i; j++) ASSUME(key[i] != key[j]);
  }
  for (s = 0; s < STEPS; s++) {
    int op = in_range(p, 0, 2), k = in_range(p + 1, 0, K - 1), v = IN[p + 2], r;
    KEYT q;
    p += 3;
    for (i = 0; i < K; i++) if (i == k) {
      q = key[i];
      if (op == 0) { ASSUME(!used[i] && v >= 0); INSERT(&q, v); used[i] = 1; val[i] = v; }
      else {
        r = op == 1 ? SEARCH(&q) : DELETE(&q);
        CHECK(r == (used[i] ? val[i] : -1), "a key gives its value, and -1 if it is not there");
        if (op == 2) used[i] = 0;
      }
      CHECK(q == key[i], "the key is not changed");
    }
  }
  for (i = 0; i < K; i++) { KEYT q = key[i]; CHECK(SEARCH(&q) == (used[i] ? val[i] : -1), "a key gives its value, and -1 if it is not there"); }
  if (PREFIX > PDEL) { pre = PKEY(PREFIX - 1); CHECK(SEARCH(&pre) == 1000 + PREFIX - 1, "older entries stay"); }
  if (PDEL) { pre = PKEY(0); CHECK(SEARCH(&pre) == -1, "deleted entries do not come back"); }
  { KEYT q = NULLKEY; CHECK(SEARCH(&q) == -1, "the null handle is never found"); }
#ifdef WITHDONE
  DONE();
#endif
#ifdef TWIN
  CHECK(0, "reachability witness");
#endif
  return 0;
}
