/* R01: the request operations of ext_mpi_interface.c against the MPI definition.
   Real code: src/mpi/ext_mpi_interface.c, src/mpi/hash_table.c, src/mpi/hash_table_blocking.c.
   Modelled: the MPI library (PMPI_*) and the handles behind it (EXT_MPI_*), both as requests that become complete at an arbitrary time. */
#include <mpi.h>
#include "ext_mpi.h"
#include "ext_mpi_blocking.h"
#include "constants.h"
#ifndef N
#define N 3
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef T
#define T 2
#endif
enum { NUL, PERS, ONCE, COLL };
enum { O_START, O_STARTALL, O_WAIT, O_WAITALL, O_WAITANY, O_WAITSOME, O_TEST, O_TESTALL, O_TESTANY, O_TESTSOME, O_GETSTATUS, O_FREE, O_CREATE, O_LAST };
#ifndef OPLO
#define OPLO 0
#define OPHI (O_LAST - 1)
#endif
#ifndef OP2LO
#define OP2LO 0
#define OP2HI (O_LAST - 1)
#endif
#define PERSTEP (4 + 2 * N)
#define NIN (4 * N + STEPS * PERSTEP)
#include "sym.h"
struct fmpi_type fmpi_t_char, fmpi_t_byte, fmpi_t_int, fmpi_t_long, fmpi_t_float, fmpi_t_double;
struct fmpi_op fmpi_o_sum;
static const int KEY[4] = {0x98000102, 0x98000201, 0x98000003, 0x98000300}; /* all of them have the same hash code */
static int kind[N], active[N], delay[N], handle[N], rdy[N], now, completed[N], started[N], freed[N];
static MPI_Request user[N];
static int cur; /* the request that is being created */

static int find_key(MPI_Request q) { int i, r = -1; for (i = 0; i < N; i++) if (q == KEY[i] && kind[i] != NUL) r = i; return r; }
static int find_handle(int h) { int i, r = -1; for (i = 0; i < N; i++) if (kind[i] == COLL && h == handle[i]) r = i; CHECK(r >= 0, "handle of a live collective request"); return r; }
static int ready(int i) { return now >= rdy[i]; }
static void start(int i) { CHECK(!active[i], "only an inactive request is started"); active[i] = 1; started[i]++; rdy[i] = now + delay[i]; }
static void complete(int i) { active[i] = 0; completed[i]++; }
static void pass(int i) { if (now < rdy[i]) now = rdy[i]; }

#ifndef REAL_HASH
/* the hash table by its contract (a map, decided by R02) */
static int map_used[N], map_val[N];
static int key_index(int q) { int i, r = -1; for (i = 0; i < N; i++) if (q == KEY[i]) r = i; return r; }
int ext_mpi_hash_init() { int i; for (i = 0; i < N; i++) map_used[i] = 0; return 0; }
int ext_mpi_hash_done() { return 0; }
int ext_mpi_hash_search(MPI_Request *key) { int i = key_index(*key); return i >= 0 && map_used[i] ? map_val[i] : -1; }
void ext_mpi_hash_insert(MPI_Request *key, int data) {
  int i = key_index(*key);
  CHECK(i >= 0 && !map_used[i], "insertion of a new key");
  if (i >= 0) { map_used[i] = 1; map_val[i] = data; }
}
int ext_mpi_hash_delete(MPI_Request *key) {
  int i = key_index(*key);
  if (i < 0 || !map_used[i]) return -1;
  map_used[i] = 0;
  return map_val[i];
}
#endif
/* handles */
int EXT_MPI_Init() { return 0; }
int EXT_MPI_Finalize() { return 0; }
int EXT_MPI_Start(int h) { start(find_handle(h)); return 0; }
int EXT_MPI_Is_active(int h) { return active[find_handle(h)]; }
int EXT_MPI_Test(int h) { int i = find_handle(h); if (!active[i]) return 1; now++; if (!ready(i)) return 0; complete(i); return 1; }
int EXT_MPI_Test_keep(int h) { int i = find_handle(h); if (!active[i]) return 1; now++; return ready(i); }
int EXT_MPI_Progress() { return 0; }
int EXT_MPI_Wait(int h) { int i = find_handle(h); if (active[i]) { pass(i); complete(i); } return 0; }
int EXT_MPI_Done(int h) { int i = find_handle(h); freed[i]++; return 0; }
int EXT_MPI_Allreduce_init(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Info f, int *h) { *h = handle[cur]; return 0; }
int EXT_MPI_Bcast_init(void *s, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Info f, int *h) { *h = handle[cur]; return 0; }
int EXT_MPI_Reduce_init(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c, MPI_Info f, int *h) { *h = handle[cur]; return 0; }
int EXT_MPI_Reduce_scatter_init(const void *s, void *r, const int *n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Info f, int *h) { *h = handle[cur]; return 0; }
int EXT_MPI_Allgatherv_init(const void *s, int n, MPI_Datatype t, void *r, const int *rc, const int *d, MPI_Datatype rt, MPI_Comm c, MPI_Info f, int *h) { *h = handle[cur]; return 0; }
int EXT_MPI_Gatherv_init(const void *s, int n, MPI_Datatype t, void *r, const int *rc, const int *d, MPI_Datatype rt, int root, MPI_Comm c, MPI_Info f, int *h) { *h = handle[cur]; return 0; }
int EXT_MPI_Scatterv_init(const void *s, const int *n, const int *d, MPI_Datatype t, void *r, int rc, MPI_Datatype rt, int root, MPI_Comm c, MPI_Info f, int *h) { *h = handle[cur]; return 0; }

/* the MPI library */
int PMPI_Init(int *a, char ***b) { return MPI_SUCCESS; }
int PMPI_Finalize() { return MPI_SUCCESS; }
int PMPI_Comm_rank(MPI_Comm c, int *r) { *r = 1; return MPI_SUCCESS; }
int PMPI_Comm_size(MPI_Comm c, int *r) { *r = 2; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = 1; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *r) { *r = 2; return MPI_SUCCESS; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm c) { return MPI_SUCCESS; } /* no blocking mode */
int PMPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm c) { return MPI_SUCCESS; }
int PMPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) { *q = KEY[cur]; return MPI_SUCCESS; }
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) { *q = KEY[cur]; return MPI_SUCCESS; }
static int foreign(MPI_Request q) {
  int i = find_key(q);
  if (q == MPI_REQUEST_NULL) return -1;
  CHECK(i >= 0, "the MPI library only gets live requests");
  return i;
}
static void foreign_complete(int i, MPI_Request *q, MPI_Status *s) {
  CHECK(kind[i] != COLL, "the MPI library must not complete a collective request");
  complete(i);
  if (s) s->MPI_TAG = i;
  if (kind[i] == ONCE) { *q = MPI_REQUEST_NULL; kind[i] = NUL; }
}
int PMPI_Start(MPI_Request *q) { int i = foreign(*q); CHECK(i >= 0 && kind[i] == PERS, "the MPI library starts its own persistent requests only"); start(i); return MPI_SUCCESS; }
int PMPI_Startall(int n, MPI_Request *q) { int i; for (i = 0; i < n; i++) PMPI_Start(&q[i]); return MPI_SUCCESS; }
int PMPI_Request_free(MPI_Request *q) { int i = foreign(*q); if (i >= 0) kind[i] = NUL; *q = MPI_REQUEST_NULL; return MPI_SUCCESS; }
int PMPI_Wait(MPI_Request *q, MPI_Status *s) {
  int i = foreign(*q);
  if (i >= 0 && active[i]) { pass(i); foreign_complete(i, q, s); }
  return MPI_SUCCESS;
}
int PMPI_Test(MPI_Request *q, int *f, MPI_Status *s) {
  int i = foreign(*q);
  *f = 1;
  if (i >= 0 && active[i]) { now++; if (ready(i)) foreign_complete(i, q, s); else *f = 0; }
  return MPI_SUCCESS;
}
int PMPI_Request_get_status(MPI_Request q, int *f, MPI_Status *s) {
  int i = foreign(q);
  *f = 1;
  if (i >= 0 && active[i]) { now++; *f = ready(i); if (*f && s) s->MPI_TAG = i; }
  return MPI_SUCCESS;
}
int PMPI_Waitall(int n, MPI_Request *q, MPI_Status *s) { int i; for (i = 0; i < n; i++) PMPI_Wait(&q[i], s ? &s[i] : 0); return MPI_SUCCESS; }
int PMPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *s) {
  int i, l;
  *f = 1; now++;
  for (i = 0; i < n; i++) { l = foreign(q[i]); if (l >= 0 && active[l] && !ready(l)) *f = 0; }
  if (*f) for (i = 0; i < n; i++) { l = foreign(q[i]); if (l >= 0 && active[l]) foreign_complete(l, &q[i], s ? &s[i] : 0); }
  return MPI_SUCCESS;
}
int PMPI_Testany(int n, MPI_Request *q, int *ix, int *f, MPI_Status *s) {
  int i, l, act = 0;
  now++; *f = 0; *ix = MPI_UNDEFINED;
  for (i = 0; i < n; i++) {
    l = foreign(q[i]);
    if (l >= 0 && active[l]) { act = 1; if (!*f && ready(l)) { foreign_complete(l, &q[i], s); *ix = i; *f = 1; } }
  }
  if (!act) *f = 1;
  return MPI_SUCCESS;
}
int PMPI_Waitany(int n, MPI_Request *q, int *ix, MPI_Status *s) {
  int f; now += T; return PMPI_Testany(n, q, ix, &f, s);
}
int PMPI_Testsome(int n, MPI_Request *q, int *oc, int *ixs, MPI_Status *s) {
  int i, l, act = 0, k = 0;
  now++;
  for (i = 0; i < n; i++) {
    l = foreign(q[i]);
    if (l >= 0 && active[l]) { act = 1; if (ready(l)) { foreign_complete(l, &q[i], s ? &s[k] : 0); ixs[k++] = i; } }
  }
  *oc = act ? k : MPI_UNDEFINED;
  return MPI_SUCCESS;
}
int PMPI_Waitsome(int n, MPI_Request *q, int *oc, int *ixs, MPI_Status *s) { now += T; return PMPI_Testsome(n, q, oc, ixs, s); }

static void create(int i, int k, int f) {
  cur = i; kind[i] = k; active[i] = 0;
  if (k == COLL) {
    int a[2] = {1, 1}, b[2], r = 0;
    switch (f) {
      case 0: r = MPI_Allreduce_init(a, b, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD, MPI_INFO_NULL, &user[i]); break;
      case 1: r = MPI_Allgatherv_init(a, 1, MPI_INT, b, a, a, MPI_INT, MPI_COMM_WORLD, MPI_INFO_NULL, &user[i]); break;
      case 2: r = MPI_Reduce_scatter_init(a, b, a, MPI_INT, MPI_SUM, MPI_COMM_WORLD, MPI_INFO_NULL, &user[i]); break;
      case 3: r = MPI_Bcast_init(a, 1, MPI_INT, 0, MPI_COMM_WORLD, MPI_INFO_NULL, &user[i]); break;
      case 4: r = MPI_Reduce_init(a, b, 1, MPI_INT, MPI_SUM, 0, MPI_COMM_WORLD, MPI_INFO_NULL, &user[i]); break;
      case 5: r = MPI_Gatherv_init(a, 1, MPI_INT, b, a, a, MPI_INT, 0, MPI_COMM_WORLD, MPI_INFO_NULL, &user[i]); break;
      default: r = MPI_Scatterv_init(a, a, a, MPI_INT, b, 1, MPI_INT, 0, MPI_COMM_WORLD, MPI_INFO_NULL, &user[i]); break;
    }
    CHECK(r == MPI_SUCCESS && user[i] == KEY[i], "init returns the request");
  } else {
    user[i] = k == NUL ? MPI_REQUEST_NULL : KEY[i];
    if (k == ONCE) start(i);
  }
}


int harness(void) {
  int i, j, k, s, p = 0;
  SYMBOLIC(IN);
  MPI_Init(0, 0);
  for (i = 0; i < N; i++) {
    handle[i] = 2 * in_range(p++, 0, N);
    for (j = 0; j < i; j++) ASSUME(handle[i] != handle[j]);
    delay[i] = in_range(p++, 0, T);
    k = in_range(p++, NUL, COLL);
    create(i, k, in_range(p++, 0, 6));
  }
  for (s = 0; s < STEPS; s++) {
    int op = s == 0 ? in_range(p, OPLO, OPHI) : in_range(p, OP2LO, OP2HI), cnt = in_range(p + 1, 0, N), ign = in_range(p + 2, 0, 1), x = in_range(p + 3, 0, 27), lst[N], act0[N], kind0[N], rdy0[N], nact = 0, nrdy = 0, total = 0;
    int flag = 77, idx = 77, oc = 77, ixs[N], ret = MPI_SUCCESS;
    MPI_Request arr[N], before[N];
    MPI_Status st[N];
    for (i = 0; i < N; i++) {
      lst[i] = in_range(p + 4 + i, 0, N - 1);
      for (j = 0; j < i; j++) ASSUME(lst[i] != lst[j]);
      delay[i] = in_range(p + 4 + N + i, 0, T);
      act0[i] = active[i]; kind0[i] = kind[i]; rdy0[i] = active[i] && ready(i); completed[i] = started[i] = freed[i] = 0;
      before[i] = user[i];
      st[i].MPI_TAG = -1; ixs[i] = 77;
    }
    p += PERSTEP;
    if (op == O_START || op == O_WAIT || op == O_TEST || op == O_GETSTATUS || op == O_FREE || op == O_CREATE) ASSUME(cnt == 1);
    for (j = 0; j < N; j++) {
      arr[j] = user[lst[j]];
      if (j < cnt) {
        i = lst[j];
        if (op == O_START || op == O_STARTALL) ASSUME((kind[i] == PERS || kind[i] == COLL) && !active[i]);
        if (op == O_FREE) ASSUME((kind[i] == PERS || kind[i] == COLL) && !active[i]);
        if (op == O_CREATE) ASSUME(kind[i] == NUL);
        if (active[i]) { nact++; if (ready(i)) nrdy++; }
      }
    }
    switch (op) {
      case O_START: ret = MPI_Start(&arr[0]); break;
      case O_STARTALL: ret = MPI_Startall(cnt, arr); break;
      case O_WAIT: ret = MPI_Wait(&arr[0], ign ? MPI_STATUS_IGNORE : &st[0]); break;
      case O_WAITALL: ret = MPI_Waitall(cnt, arr, ign ? MPI_STATUSES_IGNORE : st); break;
      case O_WAITANY: ret = MPI_Waitany(cnt, arr, &idx, ign ? MPI_STATUS_IGNORE : &st[0]); break;
      case O_WAITSOME: ret = MPI_Waitsome(cnt, arr, &oc, ixs, ign ? MPI_STATUSES_IGNORE : st); break;
      case O_TEST: ret = MPI_Test(&arr[0], &flag, ign ? MPI_STATUS_IGNORE : &st[0]); break;
      case O_TESTALL: ret = MPI_Testall(cnt, arr, &flag, ign ? MPI_STATUSES_IGNORE : st); break;
      case O_TESTANY: ret = MPI_Testany(cnt, arr, &idx, &flag, ign ? MPI_STATUS_IGNORE : &st[0]); break;
      case O_TESTSOME: ret = MPI_Testsome(cnt, arr, &oc, ixs, ign ? MPI_STATUSES_IGNORE : st); break;
      case O_GETSTATUS: ret = MPI_Request_get_status(arr[0], &flag, ign ? MPI_STATUS_IGNORE : &st[0]); break;
      case O_FREE: ret = MPI_Request_free(&arr[0]); break;
      case O_CREATE: create(lst[0], 1 + x % 3, x / 4); arr[0] = user[lst[0]]; completed[lst[0]] = started[lst[0]] = 0; break;
    }
    CHECK(ret == MPI_SUCCESS, "return code");
    for (j = 0; j < N; j++) {
      i = lst[j];
      total += completed[i];
      if (op == O_START || op == O_STARTALL) CHECK(started[i] == (j < cnt), "exactly the requests of the list are started");
      else CHECK(started[i] == 0, "nothing is started by other calls");
      if (op == O_FREE) CHECK(freed[i] == (j < cnt && kind0[i] == COLL), "exactly the collective is freed");
      else CHECK(freed[i] == 0, "nothing is freed by other calls");
      CHECK(completed[i] <= 1 && (!completed[i] || j < cnt), "completions are of requests of the list");
      if (op != O_CREATE && op != O_FREE) {
        CHECK(arr[j] == (completed[i] && kind0[i] == ONCE ? MPI_REQUEST_NULL : before[i]), "request variables");
        CHECK(active[i] == ((act0[i] || started[i]) && !completed[i]), "activity");
      }
      if (op == O_FREE && j < cnt) CHECK(arr[j] == MPI_REQUEST_NULL && kind[i] != PERS, "freed request is null");
      user[i] = arr[j];
      if (op == O_FREE && j < cnt) kind[i] = NUL;
    }
    if (op == O_GETSTATUS) {
      CHECK(flag == 0 || flag == 1, "flag");
      CHECK(flag ? nact == 0 || ready(lst[0]) : nrdy < nact, "request status");
    }
    if (op == O_START || op == O_STARTALL || op == O_GETSTATUS || op == O_FREE || op == O_CREATE) CHECK(total == 0, "no completion by other calls");
    if (op == O_WAIT || op == O_WAITALL || ((op == O_TEST || op == O_TESTALL) && flag == 1)) {
      CHECK(total == nact, "all requests complete");
      for (j = 0; j < N; j++) if (j < cnt && completed[lst[j]] && kind0[lst[j]] != COLL && !ign) CHECK(st[j].MPI_TAG == lst[j], "status of a completed request");
    }
    if (op == O_TEST || op == O_TESTALL) {
      CHECK(flag == 0 || flag == 1, "flag");
      if (!flag) CHECK(total == 0 && nrdy < nact, "a test without success changes nothing");
    }
    if (op == O_WAITANY || op == O_TESTANY) {
      if (op == O_WAITANY) flag = 1;
      CHECK(flag == 0 || flag == 1, "flag");
      if (!flag) CHECK(total == 0 && nrdy == 0 && nact > 0 && idx == MPI_UNDEFINED, "a test without success changes nothing");
      else if (nact == 0) CHECK(total == 0 && idx == MPI_UNDEFINED, "no active request");
      else {
        CHECK(idx >= 0 && idx < cnt, "index of the completed request");
        if (idx >= 0 && idx < cnt) {
          CHECK(total == 1 && completed[lst[idx]] == 1, "exactly the indicated request completes");
          if (kind0[lst[idx]] != COLL && !ign) CHECK(st[0].MPI_TAG == lst[idx], "status of a completed request");
        }
      }
    }
    if (op == O_WAITSOME || op == O_TESTSOME) {
      if (nact == 0) CHECK(oc == MPI_UNDEFINED && total == 0, "no active request");
      else {
        CHECK(oc >= (op == O_WAITSOME) && oc <= cnt && oc == total, "number of completed requests");
        if (oc == 0) CHECK(nrdy == 0, "a test without success changes nothing");
        for (k = 0; k < N; k++) if (k < oc) {
          CHECK(ixs[k] >= 0 && ixs[k] < cnt, "index of the completed request");
          if (ixs[k] >= 0 && ixs[k] < cnt) {
            CHECK(completed[lst[ixs[k]]] == 1, "exactly the indicated requests complete");
            if (kind0[lst[ixs[k]]] != COLL && !ign) CHECK(st[k].MPI_TAG == lst[ixs[k]], "status of a completed request");
            for (j = 0; j < k; j++) CHECK(ixs[j] != ixs[k], "indices differ");
          }
        }
      }
    }
  }
  MPI_Finalize();
#ifdef TWIN
  CHECK(0, "reachability witness");
#endif
  return 0;
}
