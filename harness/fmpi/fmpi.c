/* Stand-in MPI (see mpi.h). Rank processes share one big MAP_SHARED|MAP_NORESERVE region. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include "mpi.h"
#include "fmpi.h"

#define MAXR 32
#define MAXCOMM 65536
#define XBUF (1L << 20)
#define POOL (8L << 30)
#define MAXMSG (1 << 20)

struct fmpi_comm { int id, size, rank; int *members; };
struct fmpi_info { int n; char key[32][64]; char val[32][256]; };
struct fmpi_group { int n; int *ranks; };
struct fmpi_req { int kind; /*0 send done,1 recv,2 recv_init inactive*/ int done, active; void *buf; long len; int src, tag, comm; long got; struct fmpi_req *next; };
struct fmpi_comm fmpi_world, fmpi_self;
static MPI_Comm all_comms[MAXCOMM]; static int n_all;
int fmpi_comm_count(void) { return n_all; }
MPI_Comm fmpi_comm_at(int i) { return all_comms[i]; }
enum { K_CHAR, K_BYTE, K_INT, K_LONG, K_FLOAT, K_DOUBLE, K_OTHER };
#define T(n, s, k) struct fmpi_type n = { s, k };
T(fmpi_t_char, 1, K_CHAR) T(fmpi_t_byte, 1, K_BYTE) T(fmpi_t_int, 4, K_INT) T(fmpi_t_long, 8, K_LONG) T(fmpi_t_float, 4, K_FLOAT)
T(fmpi_t_double, 8, K_DOUBLE) T(fmpi_t_longint, 12, K_OTHER) T(fmpi_t_short, 2, K_OTHER) T(fmpi_t_llong, 8, K_LONG) T(fmpi_t_uint, 4, K_INT)
T(fmpi_t_ulong, 8, K_LONG) T(fmpi_t_f_int, 4, K_INT) T(fmpi_t_f_i4, 4, K_INT) T(fmpi_t_f_i8, 8, K_LONG) T(fmpi_t_f_real, 4, K_FLOAT)
T(fmpi_t_f_r4, 4, K_FLOAT) T(fmpi_t_f_r8, 8, K_DOUBLE) T(fmpi_t_f_dp, 8, K_DOUBLE)
struct fmpi_op fmpi_o_sum = { 0 }, fmpi_o_max = { 1 }, fmpi_o_min = { 2 }, fmpi_o_prod = { 3 };

struct slot { volatile int count, gen; };
struct msg { volatile int state; /*1 full 2 consumed*/ int src, tag, comm; long off, len; };
struct shared {
  volatile int next_comm;
  volatile long pool_used;
  volatile int failed;
  struct slot bar[MAXCOMM];
  pthread_mutex_t mtx[MAXR];
  volatile int nmsg[MAXR];
};
static struct shared *S;
static struct msg *mailbox[MAXR];
static char *xbuf[MAXR];
static char *pool;
int fmpi_size = 1, fmpi_rank = 0, fmpi_ranks_per_node = 0;
static int first_msg = 0;
static struct fmpi_req *posted = NULL, **posted_tail = &posted;

static void die(const char *s) { fprintf(stderr, "FMPI rank %d: %s\n", fmpi_rank, s); fflush(NULL); _exit(97); }
static void *shm(long n) {
  void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) die("mmap");
  return p;
}
static long pool_alloc(long n) {
  long o = __sync_fetch_and_add(&S->pool_used, (n + 4095) & ~4095L);
  if (o + n > POOL) die("shared pool exhausted");
  return o;
}
static void barrier(MPI_Comm c) {
  struct slot *b = &S->bar[c->id];
  int spins = 0;
  if (c->size == 1) return;
  int g = b->gen;
  if (__sync_add_and_fetch(&b->count, 1) == c->size) { b->count = 0; __sync_synchronize(); b->gen = g + 1; }
  else while (b->gen == g) { if (++spins > 100) { if (spins > 2000) usleep(50); else sched_yield(); } }
  __sync_synchronize();
}
/* everybody contributes len bytes; afterwards f(peer index) may read xbuf[member]; caller ends with barrier */
static void put(MPI_Comm c, const void *d, long len) {
  if (len > XBUF) die("exchange too large");
  if (len) memcpy(xbuf[fmpi_rank], d, len);
  barrier(c);
}
static char *peer(MPI_Comm c, int i) { return xbuf[c->members[i]]; }

int fmpi_spawn(int n, int ranks_per_node, int (*body)(int rank, void *), void *arg, int timeout) {
  int i, st, rc = 0;
  pid_t pid[MAXR];
  pthread_mutexattr_t a;
  if (n > MAXR) die("too many ranks");
  fmpi_size = n; fmpi_ranks_per_node = ranks_per_node > 0 ? ranks_per_node : n;
  S = shm(sizeof *S); pool = shm(POOL);
  S->next_comm = 2;
  pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
  for (i = 0; i < n; i++) { pthread_mutex_init(&S->mtx[i], &a); mailbox[i] = shm(sizeof(struct msg) * (long)MAXMSG); xbuf[i] = shm(XBUF); }
  fflush(NULL);
  for (i = 0; i < n; i++) {
    pid[i] = fork();
    if (pid[i] < 0) die("fork");
    if (!pid[i]) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      fmpi_rank = i;
      int r = body(i, arg);
      fflush(NULL);
      _exit(r);
    }
  }
  double t0 = PMPI_Wtime();
  int left = n, code[MAXR];
  for (i = 0; i < n; i++) code[i] = -1;
  while (left) {
    for (i = 0; i < n; i++) if (code[i] < 0) {
      pid_t r = waitpid(pid[i], &st, WNOHANG);
      if (r == pid[i]) {
        code[i] = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        left--;
        if (code[i]) { if (!rc) rc = code[i]; fprintf(stderr, "FMPI: rank %d ended with code %d\n", i, code[i]); }
      }
    }
    if (left && rc) { usleep(200000); for (i = 0; i < n; i++) if (code[i] < 0) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); code[i] = 0; left--; } break; }
    if (left && PMPI_Wtime() - t0 > timeout) {
      fprintf(stderr, "FMPI: timeout (no completion within %d s)\n", timeout);
      for (i = 0; i < n; i++) if (code[i] < 0) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); }
      return 98;
    }
    if (left) usleep(300);
  }
  return rc;
}
long fmpi_pool_alloc(long n) { return pool_alloc(n); }
char *fmpi_pool_base(void) { return pool; }

int PMPI_Init(int *c, char ***v) {
  int i;
  fmpi_world.id = 0; fmpi_world.size = fmpi_size; fmpi_world.rank = fmpi_rank;
  fmpi_world.members = malloc(sizeof(int) * fmpi_size);
  for (i = 0; i < fmpi_size; i++) fmpi_world.members[i] = i;
  fmpi_self.id = 1; fmpi_self.size = 1; fmpi_self.rank = 0; fmpi_self.members = malloc(sizeof(int)); fmpi_self.members[0] = fmpi_rank; all_comms[n_all++] = &fmpi_world; all_comms[n_all++] = &fmpi_self;
  return 0;
}
int PMPI_Initialized(int *f) { *f = fmpi_world.members != NULL; return 0; }
int PMPI_Finalize(void) { barrier(&fmpi_world); return 0; }
int PMPI_Abort(MPI_Comm c, int e) { fflush(NULL); _exit(e ? e : 1); return 0; }
/* virtual clock for the library's own timing decisions: the fmpi_fastest-th timed interval since the last reset is the shortest */
int fmpi_fastest = -1; static long wtcalls; static double wtclock;
void fmpi_wtime_reset(void) { wtcalls = 0; }
double MPI_Wtime(void) {
  if (fmpi_fastest < 0) return PMPI_Wtime();
  wtclock += wtcalls % 2 ? (wtcalls / 2 == fmpi_fastest ? 0.5 : 1.0) : 0.001;
  wtcalls++;
  return wtclock;
}
double PMPI_Wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
int PMPI_Comm_size(MPI_Comm c, int *s) { if (!c) die("Comm_size on null comm"); *s = c->size; return 0; }
int PMPI_Comm_rank(MPI_Comm c, int *r) { if (!c) die("Comm_rank on null comm"); *r = c->rank; return 0; }
int PMPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
  int me[2] = { color, key }, i, j, n = 0, id = -1, *col = malloc(sizeof(int) * c->size), *ks = malloc(sizeof(int) * c->size), *mem = malloc(sizeof(int) * c->size);
  put(c, me, sizeof me);
  for (i = 0; i < c->size; i++) { memcpy(me, peer(c, i), sizeof me); col[i] = me[0]; ks[i] = me[1]; }
  barrier(c);
  for (i = 0; i < c->size; i++) if (col[i] == color) mem[n++] = i;
  for (i = 1; i < n; i++) for (j = i; j > 0 && ks[mem[j]] < ks[mem[j - 1]]; j--) { int t = mem[j]; mem[j] = mem[j - 1]; mem[j - 1] = t; }
  if (color != MPI_UNDEFINED && mem[0] == c->rank) id = __sync_fetch_and_add(&S->next_comm, 1);
  if (id >= MAXCOMM) die("too many communicators");
  put(c, &id, sizeof id);
  if (color == MPI_UNDEFINED) *out = MPI_COMM_NULL;
  else {
    struct fmpi_comm *r = malloc(sizeof *r);
    memcpy(&r->id, peer(c, mem[0]), sizeof(int));
    r->size = n; r->members = malloc(sizeof(int) * n);
    for (i = 0; i < n; i++) { r->members[i] = c->members[mem[i]]; if (mem[i] == c->rank) r->rank = i; }
    *out = r; all_comms[n_all++] = r;
  }
  barrier(c);
  free(col); free(ks); free(mem);
  return 0;
}
int PMPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info inf, MPI_Comm *out) { return PMPI_Comm_split(c, fmpi_rank / fmpi_ranks_per_node, key, out); }
int PMPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { return PMPI_Comm_split(c, 0, c->rank, out); }
int PMPI_Comm_group(MPI_Comm c, MPI_Group *g) { *g = malloc(sizeof **g); (*g)->n = c->size; (*g)->ranks = malloc(sizeof(int) * c->size); memcpy((*g)->ranks, c->members, sizeof(int) * c->size); return 0; }
int PMPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) { int i; *o = malloc(sizeof **o); (*o)->n = n; (*o)->ranks = malloc(sizeof(int) * (n + 1)); for (i = 0; i < n; i++) (*o)->ranks[i] = g->ranks[r[i]]; return 0; }
int PMPI_Group_free(MPI_Group *g) { *g = NULL; return 0; }
int PMPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *out) {
  int i, k = -1;
  for (i = 0; i < g->n; i++) if (g->ranks[i] == fmpi_rank) k = i;
  return PMPI_Comm_split(c, k < 0 ? MPI_UNDEFINED : 0, k, out);
}
int PMPI_Comm_free(MPI_Comm *c) { if (!*c) die("Comm_free on null comm"); *c = MPI_COMM_NULL; return 0; }
int PMPI_Type_size(MPI_Datatype t, int *s) { *s = t->size; return 0; }
int PMPI_Barrier(MPI_Comm c) { if (!c) die("Barrier on null comm"); barrier(c); return 0; }
/* chunked primitives */
int PMPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  long len = (long)n * t->size, o;
  for (o = 0; o < len || o == 0; o += XBUF) {
    long l = len - o < XBUF ? len - o : XBUF;
    put(c, (char *)b + o, c->rank == root ? l : 0);
    if (c->rank != root && l) memcpy((char *)b + o, peer(c, root), l);
    barrier(c);
  }
  return 0;
}
int PMPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *d, MPI_Datatype rt, MPI_Comm c) {
  int i;
  for (i = 0; i < c->size; i++) {
    if (i == c->rank) {
      long want = (long)rc[i] * rt->size;
      if (s != MPI_IN_PLACE) { if ((long)sn * st->size < want) want = (long)sn * st->size; memmove((char *)r + (long)d[i] * rt->size, s, want); }
    }
    PMPI_Bcast((char *)r + (long)d[i] * rt->size, rc[i], rt, i, c);
  }
  return 0;
}
int PMPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
  int i, *rc = malloc(sizeof(int) * c->size), *d = malloc(sizeof(int) * c->size);
  for (i = 0; i < c->size; i++) { rc[i] = rn; d[i] = rn * i; }
  PMPI_Allgatherv(s, sn, st, r, rc, d, rt, c);
  free(rc); free(d);
  return 0;
}
int PMPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *d, MPI_Datatype rt, int root, MPI_Comm c) {
  int i;
  for (i = 0; i < c->size; i++) {
    long len = c->rank == i && s != MPI_IN_PLACE ? (long)sn * st->size : 0;
    put(c, s, len);
    if (c->rank == root && !(i == root && s == MPI_IN_PLACE)) memcpy((char *)r + (long)d[i] * rt->size, peer(c, i), (long)rc[i] * rt->size);
    barrier(c);
  }
  return 0;
}
int PMPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  int i, *rc = malloc(sizeof(int) * c->size), *d = malloc(sizeof(int) * c->size);
  for (i = 0; i < c->size; i++) { rc[i] = rn; d[i] = rn * i; }
  PMPI_Gatherv(s, sn, st, r, rc, d, rt, root, c);
  free(rc); free(d);
  return 0;
}
int PMPI_Scatterv(const void *s, const int *sc, const int *d, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  int i;
  for (i = 0; i < c->size; i++) {
    if (c->rank == root) put(c, (const char *)s + (long)d[i] * st->size, (long)sc[i] * st->size); else put(c, NULL, 0);
    if (c->rank == i && r != MPI_IN_PLACE) memcpy(r, peer(c, root), (long)rn * rt->size);
    barrier(c);
  }
  return 0;
}
static void comb(void *a, const void *b, long n, MPI_Datatype t, MPI_Op op) {
  long i;
#define LOOP(ty) { ty *x = a; const ty *y = b; for (i = 0; i < n; i++) switch (op->kind) { case 0: x[i] += y[i]; break; case 1: if (y[i] > x[i]) x[i] = y[i]; break; case 2: if (y[i] < x[i]) x[i] = y[i]; break; case 3: x[i] *= y[i]; } break; }
  switch (t->kind) {
  case K_INT: LOOP(int) case K_LONG: LOOP(long) case K_FLOAT: LOOP(float) case K_DOUBLE: LOOP(double) case K_CHAR: case K_BYTE: LOOP(signed char)
  default: die("reduction type");
  }
}
static void allreduce(const void *s, void *r, long n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  long per = XBUF / t->size, o;
  int i;
  char *acc = malloc(per * t->size + 1);
  if (s == MPI_IN_PLACE) s = r;
  for (o = 0; o < n || o == 0; o += per) {
    long m = n - o < per ? n - o : per;
    put(c, (const char *)s + o * t->size, m * t->size);
    memcpy(acc, peer(c, 0), m * t->size);
    for (i = 1; i < c->size; i++) comb(acc, peer(c, i), m, t, op);
    barrier(c);
    if (r) memcpy((char *)r + o * t->size, acc, m * t->size);
  }
  free(acc);
}
int PMPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { allreduce(s, r, n, t, op, c); return 0; }
int PMPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  char *tmp = malloc((long)n * t->size + 1);
  if (s == MPI_IN_PLACE) memcpy(tmp, r, (long)n * t->size); else memcpy(tmp, s, (long)n * t->size);
  allreduce(MPI_IN_PLACE, tmp, n, t, op, c);
  if (c->rank == root) memcpy(r, tmp, (long)n * t->size);
  free(tmp);
  return 0;
}
int PMPI_Reduce_scatter(const void *s, void *r, const int *rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  long n = 0, o = 0; int i;
  for (i = 0; i < c->size; i++) { if (i < c->rank) o += rc[i]; n += rc[i]; }
  char *tmp = malloc(n * t->size + 1);
  memcpy(tmp, s == MPI_IN_PLACE ? r : s, n * t->size);
  allreduce(MPI_IN_PLACE, tmp, n, t, op, c);
  memcpy(r, tmp + o * t->size, (long)rc[c->rank] * t->size);
  free(tmp);
  return 0;
}
int PMPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  int i, *rc = malloc(sizeof(int) * c->size);
  for (i = 0; i < c->size; i++) rc[i] = n;
  PMPI_Reduce_scatter(s, r, rc, t, op, c);
  free(rc);
  return 0;
}
/* point to point: eager copies into the pool */
int PMPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) {
  if (dst < 0 || dst >= c->size) die("send to a rank outside the communicator");
  int w = c->members[dst], k;
  long len = (long)n * t->size, off = pool_alloc(len ? len : 1);
  memcpy(pool + off, b, len);
  pthread_mutex_lock(&S->mtx[w]);
  k = S->nmsg[w];
  if (k >= MAXMSG) die("mailbox full");
  struct msg *m = &mailbox[w][k];
  m->src = c->rank; m->tag = tag; m->comm = c->id; m->off = off; m->len = len; m->state = 1;
  __sync_synchronize();
  S->nmsg[w] = k + 1;
  pthread_mutex_unlock(&S->mtx[w]);
  struct fmpi_req *r = calloc(1, sizeof *r);
  r->kind = 0; r->done = 1; r->active = 1; *q = r;
  return 0;
}
static int match(struct fmpi_req *r) {
  int i, n = S->nmsg[fmpi_rank];
  __sync_synchronize();
  while (first_msg < n && mailbox[fmpi_rank][first_msg].state == 2) first_msg++;
  for (i = first_msg; i < n; i++) {
    struct msg *m = &mailbox[fmpi_rank][i];
    if (m->state == 1 && m->src == r->src && m->tag == r->tag && m->comm == r->comm) {
      if (m->len > r->len) die("message truncated");
      memcpy(r->buf, pool + m->off, m->len);
      m->state = 2; r->got = m->len; r->done = 1;
      return 1;
    }
  }
  return 0;
}
static void progress(void) {
  struct fmpi_req **p = &posted;
  while (*p) { if (match(*p)) { *p = (*p)->next; } else p = &(*p)->next; }
  posted_tail = p;
}
int PMPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q) {
  if (src < 0 || src >= c->size) die("receive from a rank outside the communicator");
  struct fmpi_req *r = calloc(1, sizeof *r);
  r->kind = 1; r->active = 1; r->buf = b; r->len = (long)n * t->size; r->src = src; r->tag = tag; r->comm = c->id;
  progress();
  *posted_tail = r; posted_tail = &r->next;
  *q = r;
  return 0;
}
int PMPI_Recv_init(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q) {
  struct fmpi_req *r = calloc(1, sizeof *r);
  r->kind = 2; r->buf = b; r->len = (long)n * t->size; r->src = src; r->tag = tag; r->comm = c->id;
  *q = r;
  return 0;
}
int PMPI_Start(MPI_Request *q) { (*q)->active = 1; return 0; }
int PMPI_Request_free(MPI_Request *q) { *q = MPI_REQUEST_NULL; return 0; }
static int done(MPI_Request *q) { if (!*q || !(*q)->active) return 1; progress(); return (*q)->done; }
static void finish(MPI_Request *q) { if (*q && (*q)->kind != 2) *q = MPI_REQUEST_NULL; else if (*q) (*q)->active = 0; }
int PMPI_Wait(MPI_Request *q, MPI_Status *s) { int k = 0; while (!done(q)) if (++k > 100) { if (k > 2000) usleep(50); else sched_yield(); } finish(q); return 0; }
int PMPI_Test(MPI_Request *q, int *f, MPI_Status *s) { *f = done(q); if (*f) finish(q); else sched_yield(); return 0; }
int PMPI_Request_get_status(MPI_Request q, int *f, MPI_Status *s) { *f = done(&q); return 0; }
int PMPI_Waitall(int n, MPI_Request *q, MPI_Status *s) { int i; for (i = 0; i < n; i++) PMPI_Wait(&q[i], NULL); return 0; }
int PMPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *s) { int i; *f = 1; for (i = 0; i < n; i++) if (!done(&q[i])) *f = 0; if (*f) for (i = 0; i < n; i++) finish(&q[i]); else sched_yield(); return 0; }
int PMPI_Testany(int n, MPI_Request *q, int *ix, int *f, MPI_Status *s) {
  int i, act = 0;
  *f = 0; *ix = MPI_UNDEFINED;
  for (i = 0; i < n; i++) if (q[i] && q[i]->active) { act = 1; if (done(&q[i])) { finish(&q[i]); *ix = i; *f = 1; return 0; } }
  if (!act) *f = 1; else sched_yield();
  return 0;
}
int PMPI_Waitany(int n, MPI_Request *q, int *ix, MPI_Status *s) { int f; do PMPI_Testany(n, q, ix, &f, s); while (!f); return 0; }
int PMPI_Testsome(int n, MPI_Request *q, int *oc, int *ixs, MPI_Status *s) {
  int i, act = 0; *oc = 0;
  for (i = 0; i < n; i++) if (q[i] && q[i]->active) { act = 1; if (done(&q[i])) { finish(&q[i]); ixs[(*oc)++] = i; } }
  if (!act) *oc = MPI_UNDEFINED;
  return 0;
}
int PMPI_Waitsome(int n, MPI_Request *q, int *oc, int *ixs, MPI_Status *s) { do PMPI_Testsome(n, q, oc, ixs, s); while (*oc == 0); return 0; }
int PMPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q; PMPI_Isend(b, n, t, d, tag, c, &q); return PMPI_Wait(&q, NULL); }
int PMPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { MPI_Request q; PMPI_Irecv(b, n, t, s, tag, c, &q); return PMPI_Wait(&q, NULL); }
int PMPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *x) {
  MPI_Request a, b;
  PMPI_Irecv(rb, rn, rt, s, rtag, c, &a); PMPI_Isend(sb, sn, st, d, stag, c, &b);
  PMPI_Wait(&a, NULL); PMPI_Wait(&b, NULL);
  return 0;
}
int PMPI_Info_create(MPI_Info *i) { *i = calloc(1, sizeof **i); return 0; }
int PMPI_Info_set(MPI_Info i, const char *k, const char *v) { int n; for (n = 0; n < i->n; n++) if (!strcmp(i->key[n], k)) break; if (n == i->n) i->n++; snprintf(i->key[n], 64, "%s", k); snprintf(i->val[n], 256, "%s", v); return 0; }
int PMPI_Info_get(MPI_Info i, const char *k, int vl, char *v, int *f) {
  int n; *f = 0;
  if (!i) return 0;
  for (n = 0; n < i->n; n++) if (!strcmp(i->key[n], k)) { snprintf(v, vl + 1, "%s", i->val[n]); *f = 1; }
  return 0;
}
int PMPI_Info_free(MPI_Info *i) { *i = MPI_INFO_NULL; return 0; }
#include "weak.h"
int fmpi_comm_id(MPI_Comm c) { return c ? c->id : -1; }
int fmpi_comm_member(MPI_Comm c, int i) { return c->members[i]; }
