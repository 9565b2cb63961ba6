/* demo.x coll count type root [key=value...]: runs a persistent collective several times with fresh data and compares with the definition.
   slow=RANK,USEC[,K] (RANK sleeps before its K-th copy, or before each), late=1 (rank 0 starts late, MPI_Test must not wait),
   nobar=1 (no barrier between starts)
   keys: counts=a,b,.. inplace=1 starts=N test=1 delay=RANK,USEC (RANK sleeps before each start) jitter=1 second=COLL (a second handle in flight) color=K (split) */
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int n, r, root, count, ts, counts[256], displs[256], tot;
static MPI_Datatype T;
static int isr;
static double get(const char *b, long i) {
  if (T == MPI_DOUBLE) return ((double *)b)[i];
  if (T == MPI_FLOAT) return ((float *)b)[i];
  if (T == MPI_LONG) return ((long *)b)[i];
  if (T == MPI_INT) return ((int *)b)[i];
  if (T == MPI_SHORT) return ((short *)b)[i];
  return b[i];
}
static void set(char *b, long i, double v) {
  if (T == MPI_DOUBLE) ((double *)b)[i] = v;
  else if (T == MPI_FLOAT) ((float *)b)[i] = v;
  else if (T == MPI_LONG) ((long *)b)[i] = v;
  else if (T == MPI_INT) ((int *)b)[i] = v;
  else if (T == MPI_SHORT) ((short *)b)[i] = v;
  else b[i] = v;
}
static double val(int q, long i, int it, int h) { return ts == 1 ? (q * 31 + i * 7 + it * 3 + h * 5) % 100 : (q * 37 + i * 11 + it * 101 + h * 1009) % 4001; }
struct op { const char *c; char *s, *v, *s0; int inplace; long ns, nr; MPI_Request q; };
static int is(struct op *o, const char *c) { return !strcmp(o->c, c); }
static void init(struct op *o) {
  const void *s = o->inplace ? MPI_IN_PLACE : o->s; void *v = o->v;
  MPI_Comm c = MPI_COMM_WORLD; MPI_Info f = MPI_INFO_NULL; extern MPI_Comm C; c = C;
  if (o->inplace && (is(o, "gather") || is(o, "gatherv") || is(o, "reduce")) && r != root) s = o->s;
  if (is(o, "scatter") || is(o, "scatterv")) { s = o->s; if (o->inplace && r == root) v = MPI_IN_PLACE; }
  if (is(o, "allreduce")) MPI_Allreduce_init(s, v, count, T, MPI_SUM, c, f, &o->q);
  else if (is(o, "reduce")) MPI_Reduce_init(s, v, count, T, MPI_SUM, root, c, f, &o->q);
  else if (is(o, "bcast")) MPI_Bcast_init(v, count, T, root, c, f, &o->q);
  else if (is(o, "allgather")) MPI_Allgather_init(s, count, T, v, count, T, c, f, &o->q);
  else if (is(o, "allgatherv")) MPI_Allgatherv_init(s, counts[r], T, v, counts, displs, T, c, f, &o->q);
  else if (is(o, "gather")) MPI_Gather_init(s, count, T, v, count, T, root, c, f, &o->q);
  else if (is(o, "gatherv")) MPI_Gatherv_init(s, counts[r], T, v, counts, displs, T, root, c, f, &o->q);
  else if (is(o, "scatter")) MPI_Scatter_init(s, count, T, v, count, T, root, c, f, &o->q);
  else if (is(o, "scatterv")) MPI_Scatterv_init(s, counts, displs, T, v, counts[r], T, root, c, f, &o->q);
  else if (is(o, "reduce_scatter")) MPI_Reduce_scatter_init(s, v, counts, T, MPI_SUM, c, f, &o->q);
  else if (is(o, "reduce_scatter_block")) MPI_Reduce_scatter_block_init(s, v, count, T, MPI_SUM, c, f, &o->q);
  else exit(2);
}
MPI_Comm C;
/* slow=RANK,USEC: this rank sleeps before its k-th copies (every copy), to let the others run ahead */
static int slow = -1, slowus = 0, armed = 0, wr = -1, slowk = 0, ncopy = 0;
void *__real_memcpy(void *d, const void *s, size_t n);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (armed && wr == slow && (!slowk || ++ncopy == slowk)) usleep(slowus); return __real_memcpy(d, s, n); }
static void prepare(struct op *o, const char *c, int inplace) {
  o->c = c; o->inplace = inplace;
  long full = (tot > count ? tot : count) + 8;
  o->s = malloc(full * ts); o->v = malloc(full * ts); o->s0 = malloc(full * ts);
  o->ns = o->nr = count;
  if (strstr(c, "gather")) { o->ns = counts[r]; o->nr = strncmp(c, "all", 3) && r != root ? 0 : tot; }
  if (!strncmp(c, "scatter", 7)) { o->ns = tot; o->nr = counts[r]; }
  if (!strncmp(c, "reduce_scatter", 14)) { o->ns = tot; o->nr = counts[r]; }
  if (is(o, "reduce") && r != root) o->nr = 0;
}
static void fill(struct op *o, int it, int h) {
  long i;
  for (i = 0; i < o->ns; i++) set(o->s, i, val(r, i, it, h));
  memset(o->v, 0x55, (o->nr + 8) * ts);
  if (is(o, "bcast")) { if (r == root) for (i = 0; i < count; i++) set(o->v, i, val(r, i, it, h)); }
  else if (o->inplace) {
    if (strstr(o->c, "gather")) for (i = 0; i < o->ns; i++) set(o->v, displs[r] + i, val(r, i, it, h));
    else if (strncmp(o->c, "scatter", 7)) for (i = 0; i < o->ns; i++) set(o->v, i, val(r, i, it, h));
  }
  memcpy(o->s0, o->s, o->ns * ts);
}
static int check(struct op *o, int it, int h) {
  long i; int q, bad = 0;
  for (i = 0; i < o->nr; i++) {
    double e = 0;
    if (is(o, "allreduce") || is(o, "reduce")) for (q = 0; q < n; q++) e += val(q, i, it, h);
    else if (is(o, "bcast")) e = val(root, i, it, h);
    else if (strstr(o->c, "gather")) { for (q = 0; i >= displs[q] + counts[q]; q++); e = val(q, i - displs[q], it, h); }
    else if (!strncmp(o->c, "scatter", 7)) { e = val(root, displs[r] + i, it, h); if (o->inplace && r == root) continue; }
    else { for (q = 0; q < n; q++) e += val(q, displs[r] + i, it, h); }
    if (get(o->v, i) != e) { if (!bad++) fprintf(stderr, "rank %d start %d: element %ld of %s is %g, expected %g\n", r, it, i, o->c, get(o->v, i), e); }
  }
  if (!o->inplace) for (i = o->nr * ts; i < (o->nr + 8) * ts; i++) if (o->v[i] != 0x55 && !bad++) fprintf(stderr, "rank %d: byte %ld behind the receive buffer of %s changed\n", r, i - o->nr * ts, o->c);
  if (memcmp(o->s, o->s0, o->ns * ts) && !bad++) fprintf(stderr, "rank %d: send buffer of %s changed\n", r, o->c);
  return bad;
}
int main(int argc, char **argv) {
  int i, k, starts = 4, inplace = 0, test = 0, dr = -1, du = 0, jitter = 0, color = 0, order = 0, bad = 0, w, recreate = 0, late = 0, nobar = 0; const char *second = NULL; char *cl = NULL;
  MPI_Init(&argc, &argv);
  alarm(60);
  count = atoi(argv[2]); root = atoi(argv[4]);
  T = !strcmp(argv[3], "long") ? MPI_LONG : !strcmp(argv[3], "int") ? MPI_INT : !strcmp(argv[3], "double") ? MPI_DOUBLE : !strcmp(argv[3], "float") ? MPI_FLOAT : !strcmp(argv[3], "short") ? MPI_SHORT : MPI_CHAR;
  MPI_Type_size(T, &ts);
  for (i = 5; i < argc; i++) {
    char *v = strchr(argv[i], '='); *v++ = 0; char *key = argv[i];
    if (!strcmp(key, "counts")) cl = v; else if (!strcmp(key, "inplace")) inplace = atoi(v); else if (!strcmp(key, "starts")) starts = atoi(v);
    else if (!strcmp(key, "test")) test = atoi(v); else if (!strcmp(key, "delay")) sscanf(v, "%d,%d", &dr, &du); else if (!strcmp(key, "jitter")) jitter = atoi(v);
    else if (!strcmp(key, "slow")) sscanf(v, "%d,%d,%d", &slow, &slowus, &slowk); else if (!strcmp(key, "late")) late = atoi(v); else if (!strcmp(key, "nobar")) nobar = atoi(v); else if (!strcmp(key, "second")) second = v; else if (!strcmp(key, "color")) color = atoi(v); else if (!strcmp(key, "order")) order = atoi(v); else if (!strcmp(key, "recreate")) recreate = atoi(v);
    else return 2;
  }
  MPI_Comm_rank(MPI_COMM_WORLD, &w);
  MPI_Comm_size(MPI_COMM_WORLD, &n);
  if (color > 0) MPI_Comm_split(MPI_COMM_WORLD, w % color, w, &C); else if (color < 0) MPI_Comm_split(MPI_COMM_WORLD, 0, n - w, &C); else C = MPI_COMM_WORLD;
  MPI_Comm_size(C, &n); MPI_Comm_rank(C, &r);
  for (i = 0; i < n; i++) counts[i] = count;
  if (cl) for (i = 0; i < n && *cl; i++) { counts[i] = strtol(cl, &cl, 10); if (*cl) cl++; }
  for (tot = i = 0; i < n; i++) { displs[i] = tot; tot += counts[i]; }
  struct op o[2]; memset(o, 0, sizeof o);
  prepare(&o[0], argv[1], inplace); init(&o[0]);
  if (second) { prepare(&o[1], second, 0); init(&o[1]); }
  srand(w * 7 + 1); wr = w;
  for (k = 0; k < starts; k++) {
    for (i = 0; i < 1 + !!second; i++) fill(&o[i], k, i);
    if (w == dr) usleep(du);
    if (jitter) usleep(rand() % jitter);
    if (!nobar || !k) MPI_Barrier(MPI_COMM_WORLD);
    armed = 1; ncopy = 0;
    if (late) { /* rank 0 starts late: MPI_Test of the others returns meanwhile */
      if (w == 0) sleep(1); else { double t0; int f = 0; MPI_Start(&o[0].q); t0 = MPI_Wtime(); MPI_Test(&o[0].q, &f, MPI_STATUS_IGNORE); if (MPI_Wtime() - t0 > .5) { bad++; fprintf(stderr, "rank %d: MPI_Test waited %g s\n", w, MPI_Wtime() - t0); } }
    }
    if (!late || w == 0) for (i = 0; i < 1 + !!second; i++) MPI_Start(&o[order ? !!second - i : i].q);
    for (i = 0; i < 1 + !!second; i++) {
      if (test && second) { int f[2] = {0, 0}, j; for (j = w; !f[0] || !f[1]; j++) if (!f[j & 1]) { MPI_Test(&o[j & 1].q, &f[j & 1], MPI_STATUS_IGNORE); if (test > 1) usleep(rand() % test); } break; }
      if (test) { int f = 0; while (!f) { MPI_Test(&o[i].q, &f, MPI_STATUS_IGNORE); if (!f && test > 1) usleep(test); } }
      else MPI_Wait(&o[i].q, MPI_STATUS_IGNORE);
    }
    armed = 0;
    for (i = 0; i < 1 + !!second; i++) bad += check(&o[i], k, i);
    if (recreate && k % recreate == recreate - 1) { MPI_Request_free(&o[0].q); init(&o[0]); }
  }
  PMPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  if (!w) printf("%s\n", bad ? "WRONG" : "OK");
  MPI_Request_free(&o[0].q); if (second) MPI_Request_free(&o[1].q);
  MPI_Finalize();
  return bad != 0;
}
