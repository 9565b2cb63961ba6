/* Harness driver: runs the real library (compiled from /repo) over the stand-in MPI, one process per rank.
   mode=rec : Start/Wait are really called; every entry into the byte-code executor is recorded together with a
              snapshot of the process memory instead of being executed (the symbolic engine executes it).
   mode=real: everything is executed natively (used for replay and for validating the engine). */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/shm.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <errno.h>
#include <mpi.h>
#include "fmpi.h"

extern int ext_mpi_debug;
int real_ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait);
int real_ext_mpi_exec_blocking(char *ip, MPI_Comm comm, int tag, char *shmem_socket, int *counter_socket, int socket_rank, int num_cores, char **shmem_node, int *counter_node, int num_sockets_per_node, void **shmem_blocking, const void *sendbuf, void *recvbuf, int count, int reduction_op, int count_io, char **send_pointers, void *p_dev_temp);
int EXT_MPI_Progress_native();

static FILE *out = NULL;
static int N = 2, rpn = 0, dbg = 0, timeout_s = 60; static char script[4096] = ""; static char mode[16] = "rec", infos[1024] = "", commk[32] = "world", inputfile[512] = "";
static int recording = 0;
static const char *outdir;

/* ---- allocation registry (malloc family is wrapped at link time) ---- */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
struct blk { char *base; size_t size; int kind, id; char *copy; };
static struct blk *blks; static int nblk = 0, cblk = 0; static int track = 0;
#define BIG (8L << 20)
#define K_MALLOC 0
#define K_SHM 1
#define K_SHM_RO 2
#define K_SEND 3
#define K_RECV 4
#define K_GLOBAL 5
static void reg(void *p, size_t n, int kind, int id) {
  if (!track || !p) return;
  if (nblk == cblk) { cblk = cblk ? 2 * cblk : 1024; blks = __real_realloc(blks, cblk * sizeof *blks); }
  blks[nblk++] = (struct blk){ p, n, kind, id, NULL };
}
static void put64(uint64_t v) { fwrite(&v, 8, 1, out); }
static void put32(int v) { fwrite(&v, 4, 1, out); }
static void unreg(void *p) {
  int i;
  if (!track || !p) return;
  for (i = nblk - 1; i >= 0; i--) if (blks[i].base == p) {
    if (blks[i].copy) { __real_free(blks[i].copy); if (out) { fputc('F', out); put64((uint64_t)p); } }
    blks[i] = blks[--nblk]; return;
  }
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p && n <= (1 << 20)) memset(p, 0xA5, n); reg(p, n, K_MALLOC, 0); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); reg(p, a * b, K_MALLOC, 0); return p; }
void *__wrap_realloc(void *q, size_t n) { unreg(q); void *p = __real_realloc(q, n); reg(p, n, K_MALLOC, 0); return p; }
void __wrap_free(void *p) { unreg(p); __real_free(p); }
/* ---- System V shared memory stand-ins: each rank sees a segment at its own address ---- */
struct seg { long off; size_t size; };
static long shm_base_delta;
int memfd_all = -1;
int __wrap_shmget(key_t k, size_t size, int flags) { size_t n = (size + 4095) & ~4095UL; long o = fmpi_pool_alloc(n + 8192); o += 4096; /* guard pages */
  *(size_t *)(fmpi_pool_base() + o - 4096) = size; return (int)(o / 4096); }
void *__wrap_shmat(int id, const void *a, int flags) {
  if (id < 0) { errno = EINVAL; return (void *)-1; }
  char *src = fmpi_pool_base() + (long)id * 4096; size_t size = *(size_t *)(src - 4096), n = (size + 4095) & ~4095UL;
  char *p = mmap(NULL, n + 8192 + 4096 * (fmpi_rank + 1), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  p += 4096 * (fmpi_rank + 1);
  char *q = mremap(src, 0, n, MREMAP_MAYMOVE | MREMAP_FIXED, p);
  if (q == MAP_FAILED) { perror("mremap"); _exit(96); }
  if (flags & SHM_RDONLY) mprotect(q, n, PROT_READ);
  reg(q, size, flags & SHM_RDONLY ? K_SHM_RO : K_SHM, id);
  return q;
}
int __wrap_shmdt(const void *p) { int i; for (i = 0; i < nblk; i++) if (blks[i].base == p) { size_t n = (blks[i].size + 4095) & ~4095UL; unreg((void *)p); munmap((void *)p, n); return 0; } errno = EINVAL; return -1; }
int __wrap_shmctl(int id, int c, struct shmid_ds *b) { return 0; }

/* ---- recorder ---- */
extern char __data_start, _end;
static void snapshot(void) {
  int i;
  for (i = 0; i < nblk; i++) {
    struct blk *b = &blks[i];
    size_t n = b->size > BIG ? 0 : b->size;
    if (b->copy && !memcmp(b->copy, b->base, n)) continue;
    int first = !b->copy;
    if (first) b->copy = __real_malloc(n + 1);
    memcpy(b->copy, b->base, n);
    fputc(first ? 'O' : 'B', out); put64((uint64_t)b->base); put64(b->size); put32(b->kind); put32(b->id); put64(n);
    fwrite(b->copy, 1, n, out);
  }
}
extern int fmpi_comm_count(void); extern MPI_Comm fmpi_comm_at(int); extern int fmpi_comm_member(MPI_Comm, int);
static int comms_out = 0;
static void dump_comms(void) {
  int i, j, s, r;
  for (; comms_out < fmpi_comm_count(); comms_out++) {
    MPI_Comm c = fmpi_comm_at(comms_out);
    PMPI_Comm_size(c, &s); PMPI_Comm_rank(c, &r);
    fputc('M', out); put64((uint64_t)c); put32(fmpi_comm_id(c)); put32(s); put32(r);
    for (j = 0; j < s; j++) put32(fmpi_comm_member(c, j));
  }
  i = 0; (void)i;
}
static void event(const char *s) { if (out) { fputc('E', out); put32(strlen(s)); fwrite(s, 1, strlen(s), out); } }
static void call(const char *fn, int n, const uint64_t *a) {
  int i;
  dump_comms(); snapshot();
  fputc('C', out); put32(strlen(fn)); fwrite(fn, 1, strlen(fn), out); put32(n);
  for (i = 0; i < n; i++) put64(a[i]);
}
int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
  if (!recording && !strcmp(mode, "rec") && !dbg) { *ip_exec = NULL; return 0; }   /* timing runs during set-up: the virtual clock decides */
  if (!recording) return real_ext_mpi_exec_native(ip, ip_exec, active_wait);
  uint64_t a[3] = { (uint64_t)ip, (uint64_t)ip_exec, (uint64_t)(int64_t)active_wait };
  call("ext_mpi_exec_native", 3, a);
  *ip_exec = NULL;   /* as if finished; the engine executes the recorded call.  Keep the snapshot copy in step. */
  for (int i = 0; i < nblk; i++) if (blks[i].copy && (char *)ip_exec >= blks[i].base && (char *)ip_exec < blks[i].base + blks[i].size) memset(blks[i].copy + ((char *)ip_exec - blks[i].base), 0, sizeof(char *));
  return 0;
}
int ext_mpi_exec_blocking(char *ip, MPI_Comm comm, int tag, char *shmem_socket, int *counter_socket, int socket_rank, int num_cores, char **shmem_node, int *counter_node, int num_sockets_per_node, void **shmem_blocking, const void *sendbuf, void *recvbuf, int count, int reduction_op, int count_io, char **send_pointers, void *p_dev_temp) {
  if (!recording) return real_ext_mpi_exec_blocking(ip, comm, tag, shmem_socket, counter_socket, socket_rank, num_cores, shmem_node, counter_node, num_sockets_per_node, shmem_blocking, sendbuf, recvbuf, count, reduction_op, count_io, send_pointers, p_dev_temp);
  uint64_t a[] = { (uint64_t)ip, (uint64_t)comm, (uint64_t)(int64_t)tag, (uint64_t)shmem_socket, (uint64_t)counter_socket, (uint64_t)(int64_t)socket_rank, (uint64_t)(int64_t)num_cores, (uint64_t)shmem_node, (uint64_t)counter_node, (uint64_t)(int64_t)num_sockets_per_node, (uint64_t)shmem_blocking, (uint64_t)sendbuf, (uint64_t)recvbuf, (uint64_t)(int64_t)count, (uint64_t)(int64_t)reduction_op, (uint64_t)(int64_t)count_io, (uint64_t)send_pointers, (uint64_t)p_dev_temp };
  call("ext_mpi_exec_blocking", 18, a);
  return 0;
}

/* ---- configuration ---- */
struct op { char coll[32]; int count, root, inplace, insig, disp_gap, type, rop; int counts[64], ncounts, displs[64], ndispls; char *send, *recv; long sendn, recvn; MPI_Request req; MPI_Comm comm; int perm; };
static struct op ops[64]; static int nops = 0, lazy = 0;
static MPI_Datatype types[] = { MPI_LONG, MPI_INT, MPI_DOUBLE, MPI_FLOAT, MPI_CHAR, MPI_BYTE, MPI_SHORT, MPI_UNSIGNED };
static const char *tnames[] = { "long", "int", "double", "float", "char", "byte", "short", "unsigned" };
static int ilist(char *s, int *a) { int n = 0; char *e; while (*s) { a[n++] = strtol(s, &e, 10); s = *e ? e + 1 : e; } return n; }
static void parse_op(char *s) {
  struct op *o = &ops[nops++]; char *t, *sv;
  memset(o, 0, sizeof *o); o->count = 1;
  t = strtok_r(s, ":", &sv); snprintf(o->coll, 32, "%s", t);
  while ((t = strtok_r(NULL, ":", &sv))) {
    char *v = strchr(t, '='); int i; *v++ = 0;
    if (!strcmp(t, "count")) o->count = atoi(v);
    else if (!strcmp(t, "root")) o->root = atoi(v);
    else if (!strcmp(t, "inplace")) o->inplace = atoi(v); else if (!strcmp(t, "insig")) o->insig = atoi(v);
    else if (!strcmp(t, "counts")) o->ncounts = ilist(v, o->counts);
    else if (!strcmp(t, "displs")) o->ndispls = ilist(v, o->displs);
    else if (!strcmp(t, "rop")) o->rop = atoi(v);
    else if (!strcmp(t, "type")) { for (i = 0; i < 8; i++) if (!strcmp(v, tnames[i])) o->type = i; }
    else { fprintf(stderr, "bad op key %s\n", t); exit(2); }
  }
}
static char *ubuf(long n, int kind, int id, int sh) {
  long pg = (n + 8191) & ~4095L;
  char *p = mmap(NULL, pg + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + 4096, pg, PROT_READ | PROT_WRITE);
  p += 4096 + 64 * (sh + 1);   /* the object proper; the engine checks its exact extent */
  memset(p, 0xC3, n);
  reg(p, n, kind, id);
  return p;
}
static int csum(struct op *o, int n) { int i, s = 0; for (i = 0; i < n; i++) s += o->counts[i]; return s; }
static int cext(struct op *o, int n) { int i, s = 0; for (i = 0; i < n; i++) if (o->displs[i] + o->counts[i] > s) s = o->displs[i] + o->counts[i]; return s; }
static void geometry(struct op *o, int n, int r) {
  int i, ts; MPI_Type_size(types[o->type], &ts);
  if (o->ncounts == 0) for (i = 0; i < n; i++) o->counts[i] = o->count;
  else if (o->ncounts == 1) for (i = 1; i < n; i++) o->counts[i] = o->counts[0];
  if (o->ndispls == 0) { o->displs[0] = 0; for (i = 1; i < n; i++) o->displs[i] = o->displs[i - 1] + o->counts[i - 1]; }
  char *c = o->coll; if (!strncmp(c, "b_", 2)) c += 2;
  if (!strcmp(c, "allreduce") || !strcmp(c, "reduce")) { o->sendn = o->recvn = (long)o->count * ts; }
  else if (!strcmp(c, "bcast")) { o->sendn = 0; o->recvn = (long)o->count * ts; }
  else if (!strncmp(c, "allgather", 9)) { o->sendn = (long)o->counts[r] * ts; o->recvn = (long)cext(o, n) * ts; }
  else if (!strncmp(c, "gather", 6)) { o->sendn = (long)o->counts[r] * ts; o->recvn = r == o->root ? (long)cext(o, n) * ts : 0; }
  else if (!strncmp(c, "scatter", 7)) { o->sendn = r == o->root ? (long)cext(o, n) * ts : 0; o->recvn = o->inplace && r == o->root ? 0 : (long)o->counts[r] * ts; }
  else if (!strncmp(c, "reduce_scatter", 14)) { o->sendn = (long)csum(o, n) * ts; o->recvn = o->inplace ? o->sendn : (long)o->counts[r] * ts; }
  else { fprintf(stderr, "unknown collective %s\n", o->coll); exit(2); }
}
static int do_init(struct op *o, int n, int r, MPI_Info info) {
  MPI_Datatype t = types[o->type]; char *c = o->coll; const void *s = o->inplace ? MPI_IN_PLACE : o->send;
  void *rv = o->recv; int rootip = o->inplace && r == o->root;
  fmpi_wtime_reset();
  int sc = o->count, scv = o->counts[r], rc = o->count, rcv = o->counts[r]; MPI_Datatype st = t, rt = t;
  if (o->inplace && !rootip && !strncmp(c, "gather", 6)) s = o->send;
  int *cnts = o->counts, *disp = o->displs, rcg = o->count; MPI_Datatype rtg = t;
  if (o->insig && r != o->root) {      /* arguments without significance at this rank */
    cnts = disp = NULL; rcg = -77; rtg = MPI_DATATYPE_NULL;
    if (!strcmp(c, "reduce") || !strncmp(c, "gather", 6)) rv = NULL;
    if (!strncmp(c, "scatter", 7)) s = NULL;
  }
  if (!strncmp(c, "scatter", 7) && s) s = o->send;
  if (s == MPI_IN_PLACE) { sc = scv = -1; st = MPI_DATATYPE_NULL; }      /* ignored */
  if (rootip && !strncmp(c, "scatter", 7)) { rc = rcv = -1; rt = MPI_DATATYPE_NULL; }
  if (rootip && !strncmp(c, "scatter", 7)) rv = MPI_IN_PLACE;
  MPI_Op rop = o->rop == 1 ? MPI_MAX : o->rop == 2 ? MPI_MIN : o->rop == 3 ? MPI_PROD : MPI_SUM;
  if (!strcmp(c, "allreduce")) return MPI_Allreduce_init(s, o->recv, o->count, t, rop, o->comm, info, &o->req);
  if (!strcmp(c, "reduce")) return MPI_Reduce_init(o->inplace && r != o->root ? o->send : s, rv, o->count, t, rop, o->root, o->comm, info, &o->req);
  if (!strcmp(c, "bcast")) return MPI_Bcast_init(o->recv, o->count, t, o->root, o->comm, info, &o->req);
  if (!strcmp(c, "allgather")) return MPI_Allgather_init(s, sc, st, o->recv, o->count, t, o->comm, info, &o->req);
  if (!strcmp(c, "allgatherv")) return MPI_Allgatherv_init(s, scv, st, o->recv, o->counts, o->displs, t, o->comm, info, &o->req);
  if (!strcmp(c, "gather")) return MPI_Gather_init(s, sc, st, rv, rcg, rtg, o->root, o->comm, info, &o->req);
  if (!strcmp(c, "gatherv")) return MPI_Gatherv_init(s, scv, st, rv, cnts, disp, rtg, o->root, o->comm, info, &o->req);
  if (!strcmp(c, "scatter")) return MPI_Scatter_init(s, rcg, rtg, rv, rc, rt, o->root, o->comm, info, &o->req);
  if (!strcmp(c, "scatterv")) return MPI_Scatterv_init(s, cnts, disp, rtg, rv, rcv, rt, o->root, o->comm, info, &o->req);
  if (!strcmp(c, "reduce_scatter")) return MPI_Reduce_scatter_init(s, o->recv, o->counts, t, rop, o->comm, info, &o->req);
  if (!strcmp(c, "reduce_scatter_block")) return MPI_Reduce_scatter_block_init(s, o->recv, o->count, t, rop, o->comm, info, &o->req);
  return 0;
}
static int do_blocking(struct op *o, int n, int r) {
  MPI_Datatype t = types[o->type]; char *c = o->coll + 2; const void *s = o->inplace ? MPI_IN_PLACE : o->send;
  MPI_Op rop = o->rop == 1 ? MPI_MAX : MPI_SUM;
  if (!strcmp(c, "allreduce")) return MPI_Allreduce(s, o->recv, o->count, t, rop, o->comm);
  if (!strcmp(c, "allgather")) return MPI_Allgather(s, o->count, t, o->recv, o->count, t, o->comm);
  if (!strcmp(c, "reduce_scatter_block")) return MPI_Reduce_scatter_block(s, o->recv, o->count, t, rop, o->comm);
  return 1;
}
/* deterministic fill, or values from inputfile: lines "rank op iter s|r hexbytes" */
static int world_rank;
static void fill(struct op *o, int oi, int it, int r) {
  long i; char *b[2] = { o->send, o->recv }; long nb[2] = { o->sendn, o->recvn }; int w;
  for (w = 0; w < 2; w++) {
    if (w == 1 && !(o->inplace || !strcmp(o->coll, "bcast"))) { for (i = 0; i < nb[w]; i++) o->recv[i] = 0xC3; continue; }
    int ts; MPI_Type_size(types[o->type], &ts);
    for (i = 0; i < nb[w] / ts; i++) {
      long v = (r + 1) * 1000003L + i * 7919 + it * 131 + oi * 17; v %= 1000000; if (ts == 1) v &= 127;
      switch (o->type) { case 0: ((long *)b[w])[i] = v; break; case 1: case 7: ((int *)b[w])[i] = v; break; case 2: ((double *)b[w])[i] = v; break; case 3: ((float *)b[w])[i] = v; break; case 6: ((short *)b[w])[i] = v; break; default: b[w][i] = v; }
    }
  }
  if (inputfile[0]) {
    FILE *f = fopen(inputfile, "r"); static char line[1 << 20], hex[1 << 20]; int R, O, I; char sr;
    while (f && fgets(line, sizeof line, f)) if (sscanf(line, "%d %d %d %c %s", &R, &O, &I, &sr, hex) == 5 && R == world_rank && O == oi && I == it) {
      char *p = sr == 's' ? o->send : o->recv; long k, m = sr == 's' ? o->sendn : o->recvn;
      for (k = 0; k < m && hex[2 * k]; k++) { unsigned x; sscanf(hex + 2 * k, "%2x", &x); p[k] = x; }
    }
    if (f) fclose(f);
  }
}
static void hexout(FILE *f, const char *tag, int oi, int it, const char *p, long n) { long i; fprintf(f, "%s %d %d ", tag, oi, it); for (i = 0; i < n; i++) fprintf(f, "%02x", (unsigned char)p[i]); fprintf(f, "\n"); }
static int body(int rank, void *arg) {
  int i, n, r, k, it[64] = { 0 }; char path[600], *t, *sv; MPI_Comm comm; MPI_Info info = MPI_INFO_NULL; FILE *res = NULL;
  int isrec = !strcmp(mode, "rec");
  snprintf(path, sizeof path, "%s/log_%d.txt", outdir, rank);
  freopen(path, "w", stdout);
  track = 1; world_rank = rank;
  reg(&__data_start, &_end - &__data_start, K_GLOBAL, 0);
  MPI_Init(NULL, NULL);
  if (!dbg) ext_mpi_debug = 0;
  PMPI_Comm_rank(MPI_COMM_WORLD, &r);
  if (!strcmp(commk, "world")) comm = MPI_COMM_WORLD;
  else if (!strcmp(commk, "rev")) { MPI_Comm_split(MPI_COMM_WORLD, 0, -r, &comm); }
  else if (!strcmp(commk, "half")) { MPI_Comm_split(MPI_COMM_WORLD, r % 2, r, &comm); }
  else if (!strcmp(commk, "halves")) { MPI_Comm_split(MPI_COMM_WORLD, r / ((N + 1) / 2), r, &comm); }
  else if (!strcmp(commk, "rot")) { MPI_Comm_split(MPI_COMM_WORLD, 0, (r + 1) % N, &comm); }
  else if (!strcmp(commk, "dup")) { MPI_Comm_dup(MPI_COMM_WORLD, &comm); }
  else return 3;
  MPI_Comm_size(comm, &n); MPI_Comm_rank(comm, &r);
  if (infos[0]) { char *c = strdup(infos); MPI_Info_create(&info); for (t = strtok_r(c, "|", &sv); t; t = strtok_r(NULL, "|", &sv)) { char *v = strchr(t, '='); *v++ = 0; MPI_Info_set(info, t, v); } }
  snprintf(path, sizeof path, "%s/%s_%d.%s", outdir, isrec ? "rec" : "res", rank, isrec ? "bin" : "txt");
  if (isrec) out = fopen(path, "wb"); else res = fopen(path, "w");
  for (i = 0; i < nops; i++) {
    ops[i].comm = comm;
    geometry(&ops[i], n, r);
    ops[i].send = ubuf(ops[i].sendn, K_SEND, i, i); ops[i].recv = ubuf(ops[i].recvn, K_RECV, i, i);
    if (strncmp(ops[i].coll, "b_", 2) && !lazy) {
      k = do_init(&ops[i], n, r, info);
      if (isrec) { sprintf(path, "init %d %d", i, k); event(path); }
      else fprintf(res, "init %d %d\n", i, k);
      if (k) { fprintf(stderr, "init of op %d returned %d\n", i, k); return 90; }
    }
  }
  if (isrec) { sprintf(path, "comm %d %d", n, r); event(path); PMPI_Barrier(MPI_COMM_WORLD); recording = 1; }
  for (t = strtok_r(strdup(script), " ", &sv); t; t = strtok_r(NULL, " ", &sv)) {
    i = atoi(t + 1);
    switch (t[0]) {
    case 'S': if (!isrec) fill(&ops[i], i, it[i], r); event(t); MPI_Start(&ops[i].req); break;
    case 'W': sprintf(path, "w%d", i); event(path); MPI_Wait(&ops[i].req, MPI_STATUS_IGNORE); event(t); break;
    case 'T': { int f = 0; sprintf(path, "t%d", i); event(path); if (isrec) MPI_Test(&ops[i].req, &f, MPI_STATUS_IGNORE); else { long tries = 0; while (!f) { MPI_Test(&ops[i].req, &f, MPI_STATUS_IGNORE); if (!f && ++tries % 64 == 0) usleep(100); } } event(t); break; }
    case 'B': if (!isrec) fill(&ops[i], i, it[i], r); event(t); sprintf(path, "w%d", i); event(path); do_blocking(&ops[i], n, r); sprintf(path, "W%d", i); event(path); break;
    case 'P': { int l[64], nl = ilist(t + 1, l), k, done[64] = { 0 }, nd = 0; long tries = 0;   /* completion tests of several operations in turn, in an order that differs between ranks */
      sprintf(path, "p%d", nl); event(path);
      if (isrec) for (k = 0; k < nl; k++) { int f = 0; MPI_Test(&ops[l[k]].req, &f, MPI_STATUS_IGNORE); }
      else for (k = rank; nd < nl; k++) if (!done[k % nl]) { MPI_Test(&ops[l[k % nl]].req, &done[k % nl], MPI_STATUS_IGNORE); if (done[k % nl]) nd++; else if (++tries % 64 == 0) usleep(100); }
      event(t);
      for (k = 0; k < nl; k++) if (!isrec) { hexout(res, "recv", l[k], it[l[k]], ops[l[k]].recv, ops[l[k]].recvn); hexout(res, "send", l[k], it[l[k]], ops[l[k]].send, ops[l[k]].sendn); it[l[k]]++; fflush(res); }
      break; }
    case 'Q': { int f = 0; sprintf(path, "q%d", i); event(path); MPI_Test(&ops[i].req, &f, MPI_STATUS_IGNORE); event(t); break; }   /* one test, the operation may stay incomplete */
    case 'G': event("g"); if (isrec || i == 0) EXT_MPI_Progress_native(); event(t); break;
    case 'F': event(t); { int sr = recording; recording = 0; MPI_Request_free(&ops[i].req); recording = sr; } break;
    case 'J': { int sr = recording; recording = 0; if (do_init(&ops[i], n, r, info)) return 91; recording = sr; } break;   /* as I, its timing runs are not recorded */
    case 'I': sprintf(path, "i%d", i); event(path); if (do_init(&ops[i], n, r, info)) return 91; event(t); break;
    case 'D': { double d = atoi(t + 1) * 1e-3; if (!isrec) usleep(d * 1e6 * ((rank * 7 + 3) % N)); } break;
    case 'Z': if (!isrec) { int rr = atoi(t + 1); if (rr == rank) usleep(300000); } break;
    }
    if (!isrec && (t[0] == 'W' || t[0] == 'B' || t[0] == 'T')) { hexout(res, "recv", i, it[i], ops[i].recv, ops[i].recvn); hexout(res, "send", i, it[i], ops[i].send, ops[i].sendn); it[i]++; fflush(res); }
  }
  event("end");
  if (out) fclose(out);
  if (res) { fprintf(res, "end\n"); fclose(res); }
  recording = 0; out = NULL;
  if (!isrec && strstr(script, "E")) { MPI_Finalize(); }
  fflush(NULL);
  return 0;
}
int main(int argc, char **argv) {
  int i; struct rlimit rl;
  outdir = argv[1];
  for (i = 2; i < argc; i++) {
    char *v = strchr(argv[i], '='); if (!v) return 2; *v++ = 0; char *k = argv[i];
    if (!strcmp(k, "n")) N = atoi(v); else if (!strcmp(k, "rpn")) rpn = atoi(v); else if (!strcmp(k, "op")) parse_op(strdup(v));
    else if (!strcmp(k, "script")) snprintf(script, sizeof script, "%s", v); else if (!strcmp(k, "mode")) snprintf(mode, 16, "%s", v);
    else if (!strcmp(k, "info")) snprintf(infos, sizeof infos, "%s", v); else if (!strcmp(k, "comm")) snprintf(commk, 32, "%s", v);
    else if (!strcmp(k, "debug")) dbg = atoi(v); else if (!strcmp(k, "lazy")) lazy = atoi(v); else if (!strcmp(k, "timeout")) timeout_s = atoi(v); else if (!strcmp(k, "fastest")) fmpi_fastest = atoi(v); else if (!strcmp(k, "input")) snprintf(inputfile, 512, "%s", v);
    else if (!strncmp(k, "EXT_MPI", 7)) setenv(k, v, 1); else { fprintf(stderr, "bad key %s\n", k); return 2; }
  }
  getrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl);
  return fmpi_spawn(N, rpn, body, NULL, timeout_s);
}
