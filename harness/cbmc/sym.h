/* inputs of a harness: symbolic under CBMC, taken from the command line when a counterexample is replayed natively */
#ifndef SYM_H
/* NIN must be defined before */
#define SYM_H
#ifdef REPLAY
#include <stdio.h>
#include <stdlib.h>
#define ASSUME(c) do { if (!(c)) { printf("ASSUMPTION-FAILED line %d\n", __LINE__); exit(3); } } while (0)
#define SYMBOLIC(x) ((void)0)
#define CHECK(c, msg) do { if (!(c)) { printf("CHECK-FAILED %s\n", msg); exit(1); } } while (0)
#else
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert(c, "PROPERTY " msg)
#define SYMBOLIC(x) do { int i_; for (i_ = 0; i_ < (int)(sizeof(x) / sizeof((x)[0])); i_++) (x)[i_] = nondet_int(); } while (0)
#endif
int nondet_int(void);
int IN[NIN], in_n = NIN;
static int in_range(int k, int lo, int hi) { int v = IN[k]; ASSUME(v >= lo && v <= hi); return v; }
#endif
