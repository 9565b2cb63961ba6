#ifndef FMPI_H
#define FMPI_H
extern int fmpi_size, fmpi_rank, fmpi_ranks_per_node;
int fmpi_spawn(int n, int ranks_per_node, int (*body)(int rank, void *), void *arg, int timeout);
long fmpi_pool_alloc(long n);
char *fmpi_pool_base(void);
int fmpi_comm_id(struct fmpi_comm *c);
#endif

extern int fmpi_fastest; void fmpi_wtime_reset(void);
